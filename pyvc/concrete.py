"""CPython side of a contract: run the real function and its specification on the same input."""
from __future__ import annotations
import base64, collections, copy, dataclasses, json, os, pickle, signal, sys, time, traceback, types, zlib
from .contract import Gen, Star


class Hang(BaseException): pass


def _alarm(*_): raise Hang()


class Outcome:
    def __init__(self, kind, value): self.kind, self.value = kind, value
    def __repr__(self):
        if self.kind == "return": return "returns %s" % short(self.value)
        return "raises %s" % (self.value if isinstance(self.value, type) else type(self.value)).__name__ + \
               ("" if isinstance(self.value, type) else ": " + str(self.value)[:200])


def short(v, n=1500):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "…"


def observe(v):
    """materialise lazily computed results"""
    if isinstance(v, (types.GeneratorType, map, filter, zip)): return list(v)
    return v


def call(fn, args, limit=20):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        try:
            return Outcome("return", observe(fn(*args)))
        except Hang:
            return Outcome("hang", Hang)
        except RecursionError as e:
            return Outcome("raise", e)
        except (Exception, SystemExit) as e:
            return Outcome("raise", e)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def same(a, b):
    """equality that also distinguishes bool/int and list/tuple, and never raises"""
    if a is b: return True
    if isinstance(a, (bool, int, float, str, bytes, type(None))) or isinstance(b, (bool, int, float, str, bytes, type(None))):
        return type(a) is type(b) and (a == b or (a != a and b != b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and same(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)): return a == b
    if dataclasses.is_dataclass(a) and type(a) is type(b):
        return all(same(getattr(a, f.name, None), getattr(b, f.name, None)) for f in dataclasses.fields(a))
    try: return bool(a == b)
    except Exception: return False


def agree(real, spec):
    if real.kind != spec.kind: return False
    if real.kind == "return": return same(real.value, spec.value)
    if real.kind == "raise":
        want = type(spec.value)
        if want is AnyError: return isinstance(real.value, Exception)
        return isinstance(real.value, want)
    return False


class AnyError(Exception):
    """a specification raises this where any error is acceptable"""


def mutables(v, acc, depth=0):
    if depth > 8: return
    if isinstance(v, (list, dict, set)) or (dataclasses.is_dataclass(v) and not isinstance(v, type)):
        frozen = dataclasses.is_dataclass(v) and v.__dataclass_params__.frozen
        if id(v) in acc: return
        if not frozen: acc[id(v)] = v
    if isinstance(v, dict):
        for k, x in v.items(): mutables(x, acc, depth + 1)
    elif isinstance(v, (list, tuple, set, frozenset)):
        for x in v: mutables(x, acc, depth + 1)
    elif dataclasses.is_dataclass(v) and not isinstance(v, type) and not v.__dataclass_params__.frozen:
        for f in dataclasses.fields(v): mutables(getattr(v, f.name, None), acc, depth + 1)


def check_case(c, args):
    """None if the real code meets the contract on this input, else a dict describing the failure"""
    a_spec = copy.deepcopy(args) if c.copy_args else args
    a_real = copy.deepcopy(args) if c.copy_args else args
    if c.pre is not None:
        if not c.pre(*a_spec): return "skip"
        a_spec = copy.deepcopy(args) if c.copy_args else args
    spec = call(c.spec, flat(c, a_spec))
    fn = c.run or c.real()
    real = call(fn, flat(c, a_real))
    if spec.kind == "hang" or real.kind == "raise" and gone(real.value): return "skip"
    if spec.kind == "raise" and isinstance(spec.value, (NameError, UnboundLocalError, SyntaxError)): raise spec.value
    if not agree(real, spec):
        return {"expected": repr(spec), "actual": repr(real), "what": "result"}
    if c.copy_args and not same(a_real, a_spec):
        return {"expected": "arguments afterwards %s" % short(a_spec), "actual": "arguments afterwards %s" % short(a_real), "what": "frame"}
    if c.noshare and real.kind == "return":
        acc, acc2 = {}, {}
        mutables(list(a_real), acc); mutables(real.value, acc2)
        acc.pop(id(a_real), None)
        for k, v in acc2.items():
            if k in acc: return {"expected": "a result sharing nothing with the arguments", "actual": "shares %s" % short(v), "what": "sharing"}
    return None


def gone(e):
    """the internal (underscored) name the contract speaks about does not exist: the contract says nothing about this tree"""
    tb = e.__traceback__
    if tb is None: return False
    while tb.tb_next is not None: tb = tb.tb_next
    if os.sep + "contracts" + os.sep not in tb.tb_frame.f_code.co_filename: return False
    return isinstance(e, AttributeError) and str(e.name or "").startswith("_") or type(e) is ImportError


def flat(c, args):
    out = []
    ts = list(c.args.values()) if isinstance(c.args, dict) else []
    for i, a in enumerate(args):
        if i < len(ts) and isinstance(ts[i], Star): out.extend(a)
        else: out.append(a)
    return out


def gen_case(c, seed):
    g = Gen(seed)
    if c.gen is not None: return c.gen(g)
    return tuple(t.gen(g) for t in c.args.values())


def search(c, seconds, seed, maxn=10**9, fixed=True):
    """returns (stats, failure or None)"""
    t0 = time.time()
    n = skipped = 0
    distinct = set()
    samples = []
    fail = None
    def one(args, src):
        nonlocal n, skipped, fail
        n += 1
        r = check_case(c, args)
        if r == "skip": skipped += 1; return False
        key = repr(args)
        h = zlib.crc32(key.encode("utf8", "surrogatepass")) | len(key) << 32
        if h not in distinct:
            distinct.add(h)
            if len(samples) < 3 and (n % 7 == 3): samples.append(key[:400])
        if r is not None:
            r["args"] = args; r["source"] = src
            fail = r
            return True
        return False
    if c.fixed is not None and fixed:
        for i, args in enumerate(c.fixed()):
            if one(tuple(args), "fixed %d" % i): break
            if time.time() - t0 > seconds * 2: break
    k = 0
    if fail is None and (c.gen is not None or isinstance(c.args, dict) and c.args):
        while time.time() - t0 < seconds and n < maxn:
            k += 1
            s = "%s/%s/%d" % (c.cid, seed, k)
            if one(gen_case(c, s), "seed " + s): break
        if fail is not None and c.gen is None: fail = shrink(c, fail)
    return {"evaluations": n, "skipped": skipped, "keys": distinct, "samples": samples, "wall_s": round(time.time() - t0, 2)}, fail


def shrink(c, fail, budget=3.0):
    """greedy removal of list/dict elements"""
    t0 = time.time()
    best = fail
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        for cand in reductions(best["args"]):
            if time.time() - t0 > budget: break
            try: r = check_case(c, cand)
            except Exception: continue
            if isinstance(r, dict):
                r["args"] = cand; r["source"] = fail["source"] + " (shrunk)"
                best = r; improved = True
                break
    return best


def reductions(v):
    if isinstance(v, tuple):
        for i in range(len(v)):
            for x in reductions(v[i]): yield v[:i] + (x,) + v[i + 1:]
    elif isinstance(v, list):
        for i in range(len(v)): yield v[:i] + v[i + 1:]
        for i in range(len(v)):
            for x in reductions(v[i]): yield v[:i] + [x] + v[i + 1:]
    elif isinstance(v, dict):
        for k in v: yield {a: b for a, b in v.items() if a != k}
        for k in v:
            for x in reductions(v[k]):
                d = dict(v); d[k] = x
                yield d


def write_replay(pid, c, fail, verif):
    d = os.path.join(verif, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (pid, c.cid.replace("/", "_")))
    with open(path, "w") as f:
        json.dump({"property": pid, "contract": c.cid, "function": c.target, "input": fail["input"],
                   "source": fail.get("source"), "what": fail["what"], "expected": fail["expected"], "actual": fail["actual"],
                   "pickle": fail.get("pickle"), "replay": "cd /verif && python3-vt check.py --replay %s" % path}, f, indent=1)
    return path
