"""Assembles DESIGN.md from tools/design.md, design_props.json, proofs/baseline.json, known-findings.txt and tools/caught.json (by hand; result committed)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here); sys.dont_write_bytecode = True
from pyvc import contract as C, driver, prover
driver.load_contracts(here)
base = prover.baseline(here)
T = json.load(open(here + "/tools/design_props.json"))
out = ["## The properties, one by one", ""]
for l in open(here + "/properties.jsonl"):
    p = json.loads(l); pid = p["id"]
    cs = [c for c in C.CONTRACTS.values() if pid in c.props]
    out += ["### %s %s" % (pid, p["title"]), "", T[pid], ""]
    for c in cs:
        b = base.get(c.cid)
        out.append("* `%s` on `%s`: %s" % (c.cid, c.target, "proved, %d obligations" % b["obligations"] if b else "bounded" + (" (%s)" % c.why_bounded if c.why_bounded else "")))
    out.append("")
fx = "\n".join("* " + l.strip()[len("fixed: "):] for l in open(here + "/known-findings.txt") if l.startswith("fixed:"))
caught = json.load(open(here + "/tools/caught.json")) if os.path.exists(here + "/tools/caught.json") else {}
sd = ["| change | breaks | caught by |", "|---|---|---|"]
for s in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(here + "/seeded/%s/meta.json" % s))
    sd.append("| %s | %s: %s | %s |" % (s, m["property"], m["what_it_breaks"].replace("|", "/")[:160], caught.get(s, "-")))
t = open(here + "/tools/design.md").read().replace("@PROPS@", "\n".join(out)).replace("@FIXED@", fx).replace("@SEEDS@", "\n".join(sd))
open(here + "/DESIGN.md", "w").write(t)
