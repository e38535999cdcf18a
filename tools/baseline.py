"""Rewrites proofs/baseline.json (by hand; committed): the contracts whose obligations are all discharged on the
current tree and whose symbolic description agrees with CPython."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here); sys.dont_write_bytecode = True
from pyvc import contract as C, driver, prover
driver.load_contracts(here)
ids = sys.argv[1:]
old = prover.baseline(here)
cids = [c.cid for c in C.CONTRACTS.values() if c.mode == "prove" and c.args and (not ids or any(c.cid.startswith(i) for i in ids))]
res = prover.run(cids, 150, 8)
new = dict(old) if ids else {}
for k in cids:
    r = res[k]
    x = r.get("cross") or {}
    good = r["status"] == "proved" and not x.get("mismatch") and not x.get("error") and r["seconds"] < 60
    new.pop(k, None)
    if good: new[k] = {"function": C.CONTRACTS[k].target, "obligations": len(r["obls"])}
    print("%-28s %-11s %d/%d %.1fs %s %s" % (k, r["status"], sum(o[1] == "proved" for o in r["obls"]), len(r["obls"]), r["seconds"], {q: v for q, v in x.items() if q in ("mismatch", "error")} or "", r["why"][:150]))
os.makedirs(os.path.join(here, "proofs"), exist_ok=True)
json.dump(dict(sorted(new.items())), open(os.path.join(here, "proofs", "baseline.json"), "w"), indent=1)
print(len(new), "contracts in the baseline")
