"""Runs the verifier on contracts in separate processes, and keeps the committed baseline of what is proved."""
from __future__ import annotations
import json, os, pickle, resource, select, signal, sys, time, traceback
from . import contract as C

BUDGET = {"quick": 150, "thorough": 400}


def baseline(here):
    p = os.path.join(here, "proofs", "baseline.json")
    return json.load(open(p)) if os.path.exists(p) else {}


def gone(c):
    from . import concrete
    for seed in range(4):
        args = concrete.gen_case(c, "gone%d" % seed)
        out = concrete.call(c.run or c.real(), concrete.flat(c, args))
        if out.kind == "raise" and concrete.gone(out.value): return True
    return False


def _job(cid, budget):
    from . import verify, lower, cross
    def up(*_): raise verify.TimeUp()
    signal.signal(signal.SIGALRM, up)
    signal.setitimer(signal.ITIMER_REAL, budget + 5)
    sys.setrecursionlimit(20000)
    c = C.CONTRACTS[cid]
    try:
        try: r = verify.verify(c, budget)
        finally: signal.setitimer(signal.ITIMER_REAL, 0)
    except verify.TimeUp:
        return {"cid": cid, "status": "timeout", "why": "the verifier's time budget (%d s) ran out" % budget, "obls": [], "open": [], "seconds": budget}
    except MemoryError:
        return {"cid": cid, "status": "timeout", "why": "the verifier's memory limit was reached", "obls": [], "open": [], "seconds": 0}
    except Exception as e:
        return {"cid": cid, "status": "unsupported", "why": "engine error %s: %s" % (type(e).__name__, str(e)[:400]), "obls": [], "open": [], "seconds": 0,
                "trace": traceback.format_exc()[-1500:]}
    if r.status == "failed" and any("time" == o["why"] for o in r.open): r.status, r.why = "timeout", "the verifier's time budget ran out"
    if r.status == "failed" and r.open and all(o["why"] in ("z3: unknown", "depth") for o in r.open): r.status, r.why = "timeout", "the solver's time budget ran out on %s" % r.open[0]["obligation"]
    if r.status == "failed" and gone(c): r.status, r.why = "unsupported", "an internal name the contract speaks about does not exist"
    x = {}
    if r.status == "proved" and r.sides:
        try: x = cross.check(c, r, int(os.environ.get("VERIF_SEED", "1")), 150)
        except Exception as e: x = {"error": "%s: %s" % (type(e).__name__, str(e)[:300])}
    return {"cid": cid, "status": r.status, "why": r.why, "obls": r.obls, "open": r.open, "seconds": r.seconds, "functions": sorted(r.functions),
            "assumed": dict(r.assumed), "paths": r.paths, "z3": dict(lower.STATS), "cross": x, "covers": r.covers}


def run(cids, budget, workers):
    """{cid: result}; every contract in its own process, killed when it overruns"""
    todo, live, out = list(cids), {}, {}
    while todo or live:
        while todo and len(live) < workers:
            cid = todo.pop(0)
            r, w = os.pipe()
            p = os.fork()
            if p == 0:
                try:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    sys.stdout = sys.stderr
                    blob = pickle.dumps(_job(cid, budget))
                    with os.fdopen(w, "wb") as f: f.write(blob)
                except BaseException: traceback.print_exc()
                finally:
                    sys.stderr.flush(); os._exit(0)
            os.close(w)
            live[r] = [p, cid, time.time(), b""]
        rd, _, _ = select.select(list(live), [], [], 1)
        for fd in list(live):
            p, cid, t0, buf = live[fd]
            if fd in rd:
                d = os.read(fd, 1 << 20)
                if d: live[fd][3] += d; continue
            elif time.time() - t0 < budget + 30: continue
            else: os.kill(p, signal.SIGKILL)
            os.close(fd); os.waitpid(p, 0); del live[fd]
            out[cid] = pickle.loads(buf) if fd in rd and buf else \
                {"cid": cid, "status": "timeout", "why": "the verifier's process ended without a result", "obls": [], "open": [], "seconds": time.time() - t0}
    return out
