"""Command line driver: proof obligations, CPython cross-check, evidence, verdict."""
from __future__ import annotations
import base64, importlib, json, os, pickle, sys, time, traceback, pkgutil
from . import contract as C
from . import concrete


def load_contracts(here):
    import contracts
    for m in sorted(pkgutil.iter_modules([os.path.join(here, "contracts")])):
        importlib.import_module("contracts." + m[1])


def replay(path, here):
    load_contracts(here)
    r = json.load(open(path))
    c = C.CONTRACTS[r["contract"]]
    if not r.get("pickle"):
        from . import prover
        n = prover.run([c.cid], prover.BUDGET["quick"], 1)[c.cid]
        print(json.dumps(r, indent=1))
        print("verifier on the current source: %s %s" % (n["status"], [o["obligation"] for o in n["open"]]))
        return 1 if n["status"] == "failed" else 0
    args = pickle.loads(base64.b64decode(r["pickle"]))
    out = concrete.check_case(c, args)
    if out in (None, "skip"):
        print("input no longer fails"); return 0
    print("input   ", concrete.short(args)); print("expected", out["expected"]); print("actual  ", out["actual"])
    return 1


WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)


def run_parallel(cs, total, seed, pid, here):
    """the concrete search of every contract, in several processes with different seeds"""
    W = sum(c.weight for c in cs)
    procs = []
    for w in range(WORKERS):
        r, wr = os.pipe()
        p = os.fork()
        if p == 0:
            code = 1
            try:
                os.close(r)
                out = {}
                for c in cs:
                    st, fail = concrete.search(c, total * c.weight / W, "%s.%d" % (seed, w), fixed=(w == 0))
                    if fail is not None:
                        fail["input"] = concrete.short(fail["args"], 20000)
                        try: fail["pickle"] = base64.b64encode(pickle.dumps(fail["args"])).decode()
                        except Exception: fail["pickle"] = None
                        del fail["args"]
                    out[c.cid] = (st, fail)
                    if fail is not None: break
                with os.fdopen(wr, "wb") as f: pickle.dump(out, f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stderr.flush(); sys.stdout.flush()
                os._exit(code)
        os.close(wr)
        procs.append((p, r))
    results = []
    for p, r in procs:
        with os.fdopen(r, "rb") as f: blob = f.read()
        os.waitpid(p, 0)
        if not blob: raise SystemExit("a worker of %s died" % pid)
        results.append(pickle.loads(blob))
    return results


TRUSTED = [
    "the verifier itself (/verif/pyvc: interpreter of the function sources, loop rules, term rewriting, automata); checked against CPython on every run, not proved",
    "z3 4/5 python API for quantifier-level side goals",
    "CPython 3.12: the builtin containers, str, sorted, re and dataclass machinery behave as their contracts in pyvc/lib.py and pyvc/interp.py say",
    "SHA-256 is treated as an uninterpreted function of the hashed text",
    "hash() of the frozen records is treated as injective (C04 compares property hashes)",
    "values of declared class types have exactly that class (no subclasses of str, list, dict, int)",
    "generator functions are interpreted as if run to completion at once; logging calls and exception messages are dropped",
]


def prove_phase(cs, tier, here):
    from . import prover
    base = prover.baseline(here)
    todo = [c.cid for c in cs if c.mode == "prove" and c.args and (c.cid in base or tier == "thorough")]
    if os.environ.get("VERIF_NOPROVE") == "1": todo = []
    return base, prover.run(todo, prover.BUDGET[tier], WORKERS) if todo else {}


def main(argv, here):
    if argv and argv[0] == "--replay": return replay(argv[1], here)
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = argv[1] if len(argv) > 1 else None
    t0 = time.time()
    load_contracts(here)
    cs = [c for c in C.CONTRACTS.values() if pid in c.props and (only is None or c.cid == only)]
    if not cs: raise SystemExit("no contract for " + pid)
    viol = []
    base, proofs = prove_phase(cs, tier, here)
    tp = time.time() - t0
    for r in proofs.values():
        if r["status"] == "proved" and (r["cross"].get("mismatch") or r["cross"].get("error")):
            r["status"], r["why"] = "void", "the engine and CPython disagree: %s" % (r["cross"].get("mismatch") or r["cross"].get("error"))
    total = float(os.environ.get("VERIF_SECONDS", 25 if tier == "quick" else 420))
    results = run_parallel(cs, total, seed, pid, here)
    broken = [C.CONTRACTS[cid] for cid, r in sorted(proofs.items()) if r["status"] == "failed" and cid in base]
    for c in broken:
        # the verifier's counterexamples first
        for o in proofs[c.cid]["open"]:
            w = o.get("witness")
            fail = concrete.check_case(c, w) if w is not None else None
            if fail not in (None, "skip"):
                fail["input"] = concrete.short(w, 20000); fail["pickle"] = base64.b64encode(pickle.dumps(w)).decode()
                results.append({c.cid: ({"evaluations": 1, "skipped": 0, "keys": set(), "wall_s": 0, "samples": []}, fail)})
    if broken and not any(x[1] for r in results for x in r.values()):
        # an obligation that used to be discharged is not: look longer for an input that shows it
        more = run_parallel(broken, float(os.environ.get("VERIF_SECONDS", 90)), "%s.more" % seed, pid, here)
        results += more
    cov, samples = {}, []
    ev = dn = 0
    for c in cs:
        rs = [r[c.cid] for r in results if c.cid in r]
        if not rs: continue
        st = {"evaluations": sum(r[0]["evaluations"] for r in rs), "skipped": sum(r[0]["skipped"] for r in rs),
              "distinct": len(set().union(*[r[0].pop("keys") for r in rs])), "wall_s": max(r[0]["wall_s"] for r in rs)}
        cov[c.cid] = st
        ev += st["evaluations"]; dn += st["distinct"]; samples += [c.cid + ": " + s for r in rs for s in r[0]["samples"][:1]][:1]
        fails = [r[1] for r in rs if r[1] is not None]
        if fails and not viol:
            fail = min(fails, key=lambda f: len(f["input"]))
            path = concrete.write_replay(pid, c, fail, here)
            print("contract %s of %s is broken: %s" % (c.cid, c.target, fail["what"]))
            if proofs.get(c.cid, {}).get("open"): print("  failed obligation %s" % proofs[c.cid]["open"][0]["obligation"])
            print("  input    %s" % fail["input"][:600])
            print("  expected %s" % fail["expected"][:600])
            print("  actual   %s" % fail["actual"][:600])
            viol.append("VIOLATION property=%s replay=%s" % (pid, path))
    if broken and not viol:
        c = broken[0]; r = proofs[c.cid]
        path = write_obligation(pid, c, r, here)
        print("contract %s of %s: obligation %s was discharged on the unchanged tree and is not any more" % (c.cid, c.target, r["open"][0]["obligation"]))
        print("  %s" % r["open"][0]["goal"][:800])
        viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    evidence(pid, tier, seed, cs, base, proofs, cov, ev, dn, samples, tp, time.time() - t0, len(viol), here)
    for c in cs:
        r = proofs.get(c.cid)
        if r: print("%-28s %s: %d of %d obligations discharged in %.1f s %s" % (c.cid, r["status"], sum(o[1] == "proved" for o in r["obls"]), len(r["obls"]), r["seconds"], r["why"][:200]))
        if c.cid in cov: print("%-28s bounded: %d inputs run against the specification" % (c.cid, cov[c.cid]["evaluations"]))
    for v in viol: print(v)
    return 1 if viol else 0


def write_obligation(pid, c, r, here):
    d = os.path.join(here, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-obligation.json" % (pid, c.cid))
    json.dump({"property": pid, "contract": c.cid, "function": c.target, "obligation": r["open"][0]["obligation"],
               "failed_obligations": [o["obligation"] for o in r["open"]], "verifier_output": r["open"], "pickle": None},
              open(path, "w"), indent=1)
    return path


def evidence(pid, tier, seed, cs, base, proofs, cov, ev, dn, samples, tp, wall, nviol, here):
    lv = json.load(open(os.path.join(here, "tools", "levels.json"))).get(pid, {})
    ok = {k: r for k, r in proofs.items() if r["status"] == "proved"}
    needed = [c.cid for c in cs if c.mode == "prove" and c.cid in base]
    level = "proof" if lv.get("level") == "proof" and needed and all(k in ok for k in needed) else "exploration"
    obls = sum(len(r["obls"]) for r in proofs.values() if r["status"] in ("proved", "failed"))
    done = sum(sum(o[1] == "proved" for o in r["obls"]) for r in proofs.values() if r["status"] in ("proved", "failed"))
    coverage = {}
    if proofs:
        coverage.update({"obligations": obls, "discharged": done,
                         "checker_cmd": "python3-vt check.py %s" % pid, "trusted_base": TRUSTED,
                         "back_ends": {"rewriting_and_automata": sum(r.get("z3", {}).get("syntactic", 0) for r in ok.values()),
                                       "z3_queries": sum(r.get("z3", {}).get("z3", 0) for r in ok.values()),
                                       "z3_seconds": round(sum(r.get("z3", {}).get("z3_s", 0) for r in ok.values()), 2),
                                       "verifier_seconds": round(sum(r["seconds"] for r in proofs.values()), 2)},
                         "proved_contracts": {k: {"function": C.CONTRACTS[k].target, "obligations": len(r["obls"]), "paths": r["paths"],
                                                  "functions_interpreted": r["functions"], "library_contracts_used": r["assumed"],
                                                  "callee_contracts_assumed": sorted(C.CONTRACTS[k].callees or ()),
                                                  "reachable_paths": [list(x) for x in r["covers"]], "cpython_crosscheck": r["cross"]} for k, r in sorted(ok.items())},
                         "undecided_contracts": {k: r["status"] + ": " + r["why"] for k, r in sorted(proofs.items()) if r["status"] != "proved"}})
    coverage.update({"evaluations": ev, "distinct_nontrivial": dn,
                     "rule": "generated inputs of each contract; distinct by repr of the arguments; skipped where the precondition is false",
                     "samples": samples or ["-"],
                     "bounded_contracts": {k: dict(v, why="also proved" if k in ok else (C.CONTRACTS[k].why_bounded or "not within the verifier's reach: bounded stand-in")) for k, v in cov.items()}})
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
               "assumptions": TRUSTED[2:] + lv.get("assumptions", []), "wall_s": round(wall, 2), "violations": nviol},
              open(os.path.join(here, "evidence", pid + ".json"), "w"), indent=1)
