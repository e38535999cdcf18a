"""Writes MANIFEST.json from the registered contracts, the proof baseline and tools/levels.json (run by hand; the result is committed)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here); sys.dont_write_bytecode = True
from pyvc import contract as C, driver, prover
driver.load_contracts(here)
base = prover.baseline(here)
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks = []
LV = json.load(open(os.path.join(here, "tools", "levels.json")))
for p in props:
    pid = p["id"]
    cs = [c for c in C.CONTRACTS.values() if pid in c.props]
    pr = [c.cid for c in cs if c.cid in base]
    bd = [c.cid for c in cs if c.cid not in base]
    lv = LV.get(pid, {})
    if pr and bd: tech = "function contracts: %d proved deductively for all inputs, %d checked bounded on the real code" % (len(pr), len(bd))
    elif pr: tech = "function contracts proved deductively on the function sources for all inputs"
    else: tech = "executable function contracts, bounded check on the real code"
    note = []
    if pr: note.append("Proved for all inputs from the current sources (every obligation discharged in the run, engine cross-checked against CPython): %s." % ", ".join(pr))
    if bd: note.append("Bounded stand-ins, never counted as proved: %s - the real functions run against the specification on generated inputs." % ", ".join(bd))
    if lv.get("note"): note.append(lv["note"])
    note.append("Trusted: the verifier in /verif/pyvc, z3, its contracts for CPython builtins (DESIGN.md, Trusted base).") if pr else None
    checks.append({"property": pid, "quick_cmd": "python3-vt check.py " + pid, "thorough_cmd": "python3-vt check.py " + pid,
                   "technique": tech, "level": lv.get("level", "exploration"), "level_note": " ".join(note)})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
for c in checks: print(c["property"], c["level"], "|", c["technique"])
