"""Engine against CPython: the symbolic description of a function, evaluated on concrete arguments, must
describe exactly what CPython does on them (a disagreement means the engine is unsound: the proof is void)."""
from __future__ import annotations
import copy, hashlib, time
from . import ir, interp, concrete, contract as C
from .ir import *
from .interp import Cell, Sub, Obj, Iter, Raw, RECS, RECS_BY_NAME, MObj, StarArg

ir.APPS.setdefault("sha256_hex", lambda s: hashlib.sha256(s.encode()).hexdigest())


class NoEmbed(Exception): pass


def embed(v, s):
    if s == J: return embed_j(v)
    if isinstance(s, str):
        want = {"Str": str, "Int": int, "Bool": bool, "None": type(None)}.get(s) or {STR: str, INT: int, BOOL: bool, NONE: type(None)}.get(s)
        if want is None or type(v) is not want: raise NoEmbed()
        return v
    k = s[0]
    if k == "Seq":
        if type(v) not in (list, tuple): raise NoEmbed()
        return tuple(embed(x, s[1]) for x in v)
    if k == "Set": return frozenset(embed(x, s[1]) for x in v)
    if k == "Map":
        if type(v) is not dict: raise NoEmbed()
        return FMap((embed(a, s[1]), embed(b, s[2])) for a, b in v.items())
    if k == "Opt": return None if v is None else ("some", embed(v, s[1]))
    if k == "Tup": return tuple(embed(x, t) for x, t in zip(v, s[1]))
    if k == "Rec":
        info = RECS_BY_NAME[s[1]]
        if type(v) is not info.pycls: raise NoEmbed()
        return CRec(s[1], [embed(getattr(v, f), t) for f, t in info.fields])
    raise NoEmbed()


def embed_j(v):
    if v is None: return ("null", None)
    if type(v) is bool: return ("bool", v)
    if type(v) is int: return ("int", v)
    if type(v) is str: return ("str", v)
    if type(v) is list: return ("list", tuple(embed_j(x) for x in v))
    if type(v) is dict:
        if any(type(k) is not str for k in v): raise NoEmbed()
        return ("dict", FMap((k, embed_j(x)) for k, x in v.items()))
    raise NoEmbed()


class Opaque(Exception): pass


def plain(v):
    """a python result in comparable form"""
    if v is None or type(v) in (bool, int, str): return (type(v).__name__, v)
    if isinstance(v, (list,)): return ("list", tuple(plain(x) for x in v))
    if isinstance(v, tuple): return ("tuple", tuple(plain(x) for x in v))
    if isinstance(v, (set, frozenset)): return ("set", frozenset(plain(x) for x in v))
    if isinstance(v, dict): return ("dict", frozenset((plain(a), plain(b)) for a, b in v.items()))
    for cls, info in RECS.items():
        if type(v) is cls: return ("rec", info.name, tuple(plain(getattr(v, f)) for f, _ in info.fields))
    raise Opaque()


def plain_ev(v, s):
    """an evaluated term in the same form"""
    if s == J:
        k, x = v
        if k == "list": return ("list", tuple(plain_ev(y, J) for y in x))
        if k == "dict": return ("dict", frozenset((("str", a), plain_ev(b, J)) for a, b in x))
        return plain(x)
    if not isinstance(s, tuple): return plain(v)
    k = s[0]
    if k == "Seq": return ("list", tuple(plain_ev(x, s[1]) for x in v))
    if k == "Set": return ("set", frozenset(plain_ev(x, s[1]) for x in v))
    if k == "Map": return ("dict", frozenset((plain_ev(a, s[1]), plain_ev(b, s[2])) for a, b in v))
    if k == "Opt": return ("NoneType", None) if v is None else plain_ev(v[1], s[1])
    if k == "Tup": return ("tuple", tuple(plain_ev(x, t) for x, t in zip(v, s[1])))
    if k == "Rec": return ("rec", v.cls, tuple(plain_ev(x, t) for x, (_, t) in zip(v.vals, RECS_BY_NAME[v.cls].fields)))
    raise Opaque()


def plain_sym(it, v, env):
    if isinstance(v, Term): return plain_ev(ir.ev(v, env), v.sort)
    if v is None or isinstance(v, (bool, int, str)): return plain(v)
    if isinstance(v, tuple): return ("tuple", tuple(plain_sym(it, x, env) for x in v))
    if isinstance(v, Iter): v = Cell("list", v.d["seq"])
    if isinstance(v, Cell):
        c = v.d["val"]
        if isinstance(c, tuple):
            if v.kind == "dict": return ("dict", frozenset((plain_sym(it, a, env), plain_sym(it, b, env)) for a, b in c))
            xs = tuple(plain_sym(it, x, env) for x in c)
            return ("set", frozenset(xs)) if v.kind == "set" else ("list", xs)
        return plain_ev(ir.ev(c, env), c.sort)
    if isinstance(v, Obj) and v.cls in RECS:
        info = RECS[v.cls]
        return ("rec", info.name, tuple(plain_sym(it, v.d[f], env) for f, _ in info.fields))
    raise Opaque()


def holds(pc, env):
    for p in pc:
        if not ir.ev(p, env): return False
    return True


def inputs(c, seed):
    if c.fixed is not None:
        import itertools
        for a in itertools.islice(c.fixed(), 40): yield a
    k = 0
    while True:
        g = C.Gen("%s/%s/x%d" % (seed, c.cid, k)); k += 1
        yield c.gen(g) if c.gen else tuple(t.gen(g) for t in c.args.values())


def agree(it, outs, real, env):
    """None, or what differs between the engine's outcomes and what CPython did; and the outcome used"""
    sel, undef = [], []
    for o in outs:
        try:
            if holds(o.pc, env): sel.append(o)
        except ir.Undefined as e: undef.append(str(e))
    if len(sel) != 1: return "%d outcomes of the engine hold (undefined: %s)" % (len(sel), undef[:3]), None
    o = sel[0]
    if o.kind == "raise":
        if real.kind != "raise" or not isinstance(real.value, o.value.cls): return "engine: raises %s" % o.value.cls.__name__, o
        return None, o
    if real.kind != "return": return "engine: returns", o
    try: a = plain_sym(it, o.value, env); b = plain(real.value)
    except Opaque: return "opaque", o
    except ir.Undefined as e: return "engine value undefined: %s" % e, o
    if a[0] in ("tuple", "list") and b[0] in ("tuple", "list"): a, b = a[1:], b[1:]
    if a != b: return "engine value %s" % (repr(a)[:400]), o
    return None, o


def check(c, r, seed, n, seconds=12.0):
    """n random inputs; returns counts; 'mismatch' carries the first disagreement"""
    out = {"runs": 0, "skipped": 0, "opaque": 0}
    hit = set()
    t0 = time.time()
    names = list(c.args)
    for k, args in enumerate(inputs(c, seed)):
        if out["runs"] >= n or k > 20 * n or time.time() - t0 > seconds: break
        flat = concrete.flat(c, args)
        for j, (alt, code, spec, it) in enumerate(r.sides):
            env = {}
            try:
                for nm, s, v in zip(names, alt, args):
                    if isinstance(s, tuple) and s[0] == "Star": env[Var(nm, Seq(s[1]))] = tuple(embed(x, s[1]) for x in v)
                    else: env[Var(nm, s)] = embed(v, s)
            except NoEmbed: continue
            break
        else:
            out["skipped"] += 1; continue
        if c.pre is not None and not c.pre(*copy.deepcopy(flat)): out["skipped"] += 1; continue
        for side, fn, outs in (("code", c.run or c.real(), code), ("spec", c.spec, spec)):
            real = concrete.call(fn, copy.deepcopy(flat))
            bad, o = agree(it, outs, real, env)
            if bad == "opaque": out["opaque"] += 1
            elif bad:
                out["mismatch"] = {"side": side, "what": bad, "input": concrete.short(args, 600), "cpython": repr(real)[:300]}
                return out
            if side == "code": hit.add((j, code.index(o)))
        out["runs"] += 1
    out["paths_hit"], out["paths"] = len(hit), sum(len(s[1]) for s in r.sides)
    return out
