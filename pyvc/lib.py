"""Contracts of the Python built-ins and of the standard library functions the code calls.

These are the trusted base of the verifier: each handler states what the library function does on the
verifier's values.  A call that is not listed here makes the function Unsupported (never assumed)."""
from __future__ import annotations
import builtins, collections, contextlib, copy as _copy, dataclasses, functools, hashlib, itertools, re, typing, types, sys, enum
import collections.abc
from . import strings, ir, regexp
from .ir import *
from .interp import (Unsupported, PyRaise, Cell, Sub, Obj, Closure, Bound, Meth, Iter, Raw, ExcVal, Match, Stale, Groups, Env,
                     HostFn, Suppress, CMCall, LibCM, PathVal, Opaque, DataclassFields, DictView, RECS, RECS_BY_NAME, _MISSING, _structural,
                     is_repo_fn, StarArg, MObj, FIELD_LANG)
from . import interp as _i

NO = object()
USED: collections.Counter = collections.Counter()     # library contracts used on this run


# ------------------------------------------------------------------ strings as terms
def _ws_strip(s): return s.strip()


ir.STROPS.update({
    "len": len, "strip": lambda s: s.strip(), "lower": str.lower, "upper": str.upper, "contains": lambda a, b: b in a,
    "startswith": lambda a, b: a.startswith(b), "endswith": lambda a, b: a.endswith(b), "replace": lambda a, b, c: a.replace(b, c),
    "prefix": lambda s, n: s[:n], "suffix": lambda s, n: s[n:], "removeprefix": str.removeprefix, "removesuffix": str.removesuffix,
})


def SliceStr(s, lo, hi):
    if hi is None: return StrOp("suffix", s, lo) if lo is not None else s
    if lo is None or (is_const(lo) and cval(lo) == 0): return StrOp("prefix", s, hi)
    return StrOp("suffix", StrOp("prefix", s, hi), lo)


def StrFlat(seq):
    """concatenation of a sequence of strings"""
    if seq.op == "SLit": return StrCat(*seq.args) if seq.args else S("")
    if seq.op == "SCat": return StrCat(*[StrFlat(a) for a in seq.args])
    if seq.op == "Ite": return Ite(seq.args[0], StrFlat(seq.args[1]), StrFlat(seq.args[2]))
    if seq.op == "SComp":
        # only the concatenation counts: every step contributes one string
        def glue(t):
            if t.op == "Ite":
                a, b = glue(t.args[1]), glue(t.args[2])
                return None if a is None or b is None else Ite(t.args[0], a, b)
            if t.op == "SLit":
                g = StrCat(*t.args)
                return SLit(STR) if g is S("") else SLit(STR, g)
            if t.op in ("SComp", "SCat", "SNth"): 
                g = StrFlat(t)
                return SLit(STR, g) if t.op == "SCat" else t
            return t
        b = glue(seq.args[1])
        if b is not None and b is not seq.args[1]:
            seq = ir.rebuild(seq, [seq.args[0], b], seq.data)
            if seq.op != "SComp": return StrFlat(seq)
    return mk("StrFlat", (seq,), STR)


ir._REBUILD["StrFlat"] = lambda t, a, d: StrFlat(a[0])
ir.EVAL_EXTRA = {"StrFlat": lambda vals, t: "".join(vals[0])}


# ------------------------------------------------------------------ helpers
def is_container_sort(s): return isinstance(s, tuple) and s[0] in ("Seq", "Map", "Set")


MUTABLE_RECS: set = set()      # records whose class is not frozen


def holds_container(s):
    if not isinstance(s, tuple): return s == J
    if s[0] == "Rec": return s[1] in MUTABLE_RECS
    if s[0] in ("Seq", "Map", "Set"): return True
    if s[0] == "Tup": return any(holds_container(x) for x in s[1])
    if s[0] == "Opt": return holds_container(s[1])
    return False


def freeze(it, v):
    if isinstance(v, Cell):
        if not v.d.get("frozen"): it.write(v, "frozen", "stored in a container of unknown shape")
        c = v.d["val"]
        if isinstance(c, tuple):
            for x in c:
                if isinstance(x, tuple):
                    for y in x: freeze(it, y)
                else: freeze(it, x)
    elif isinstance(v, tuple):
        for x in v: freeze(it, x)


def borrowed(it, v):
    """does storing v make the container share a mutable object with something else"""
    if isinstance(v, Cell): return False       # frozen instead
    if isinstance(v, Sub): return True
    if isinstance(v, tuple): return any(borrowed(it, x) for x in v)
    if isinstance(v, Term): return holds_container(v.sort) and not fresh_container(v)
    return False


def fresh_container(t): return t.op in ("SLit",) and not t.args


def store(it, v, sort, into):
    t = it.as_term(v, sort)
    freeze(it, v)
    if borrowed(it, v): mark_borrow(it, into)
    else:
        b = inner_borrow(v)
        if b: mark_borrow(it, into, _i.deeper(b, 1))
    return t


def inner_borrow(v):
    """what a new container borrows (Cell.d['borrows']), the cells in it included"""
    if isinstance(v, Cell):
        b = v.d.get("borrows")
        if isinstance(v.d["val"], tuple):
            for x in v.d["val"]:
                for y in (x if isinstance(x, tuple) else (x,)):
                    if isinstance(y, Cell) and inner_borrow(y): b = _i.join_borrows(b, _i.deeper(inner_borrow(y), 1))
        return b
    b = None
    if isinstance(v, tuple):
        for x in v: b = _i.join_borrows(b, inner_borrow(x))
    return b


def mark_borrow(it, c, b=True):
    """elements of c borrow"""
    while isinstance(c, Sub): c = c.parent; b = _i.deeper(b, 1)
    if isinstance(c, Cell):
        new = _i.join_borrows(c.d.get("borrows"), b)
        if new != c.d.get("borrows"): it.write(c, "borrows", new)


def term_of(it, c):
    """content of a container as a Term"""
    return it.as_term(c)


def elem_sort(it, c, v):
    s = it.sort_of(c)
    return it.complete(it.unify(s[1], it.sort_of(v)))


def check_hashable(it, v):
    v2 = v
    if isinstance(v2, (Cell, Sub)) : raise PyRaise(TypeError, where="unhashable")
    if isinstance(v2, tuple):
        for x in v2: check_hashable(it, x)
    if isinstance(v2, Term):
        if v2.sort == J:
            if it.branch(Or(JIs("dict", v2), JIs("list", v2))): raise PyRaise(TypeError, where="unhashable")
        elif v2 in it.tuples and not is_container_sort(v2.sort[1]) and v2.sort[1] != J: pass
        elif is_container_sort(v2.sort): raise PyRaise(TypeError, where="unhashable")


# ------------------------------------------------------------------ list
def list_append(it, c, v):
    cur = it.get(c)
    if isinstance(cur, tuple) and isinstance(c, Cell):
        it.put(c, cur + (v,)); return
    es = elem_sort(it, c, v)
    t = store(it, v, es, c)
    it.put(c, SCat(es, it.as_term(cur, Seq(es)), SLit(es, t)))


def list_extend(it, c, v):
    s = it.seq_of(v)
    cur = it.get(c)
    if isinstance(s, tuple):
        for x in s: list_append(it, c, x)
        return
    if isinstance(cur, tuple) and not cur:
        if holds_container(s.sort[1]): mark_borrow(it, c)
        it.put(c, s); return
    es = it.complete(it.unify(it.sort_of(c)[1], s.sort[1]))
    if holds_container(es): mark_borrow(it, c)
    if isinstance(cur, tuple):
        for x in cur: freeze(it, x)
    it.put(c, SCat(es, it.as_term(cur, Seq(es)), it.coerce(s, Seq(es))))


def list_index(it, c, v):
    cur = it.get(c)
    t = it.as_term(c)
    if not (t.op == "SLit" and not t.args):
        m = it.contains(c, v)
    else: m = False
    if not it.branch(m): raise PyRaise(ValueError, where="index")
    v = it.as_term(v, t.sort[1])
    return SIdx(t, v)


def m_list(it, c, name, args, kwargs):
    if name == "append": list_append(it, c, args[0]); return NONE_T
    if name == "extend": list_extend(it, c, args[0]); return NONE_T
    if name == "index" and len(args) == 1: return list_index(it, c, args[0])
    if name == "copy":
        cur = it.get(c)
        return Cell("list", cur)
    if name == "insert" and is_const(args[0]) and cval(args[0]) == 0:
        cur = it.get(c)
        if isinstance(cur, tuple): it.put(c, (args[1],) + cur)
        else:
            es = elem_sort(it, c, args[1])
            it.put(c, SCat(es, SLit(es, store(it, args[1], es, c)), it.coerce(cur, Seq(es))))
        return NONE_T
    if name == "clear": it.put(c, ()); return NONE_T
    if name == "sort":
        r = py_sorted(it, [c], kwargs)
        it.put(c, r.d["val"]); return NONE_T
    if name == "reverse":
        cur = it.get(c)
        it.put(c, cur[::-1] if isinstance(cur, tuple) else SRev(cur)); return NONE_T
    if name == "count":
        t = it.as_term(c); v = it.as_term(args[0], t.sort[1])
        return SLen(sfilter(t, lambda x: VEq(x, v)))
    if name == "pop":
        cur = it.get(c)
        if isinstance(cur, tuple):
            if not cur: raise PyRaise(IndexError)
            if not args: it.put(c, cur[:-1]); return cur[-1]
            if is_const(args[0]) and cval(args[0]) == 0: it.put(c, cur[1:]); return cur[0]
        elif not args:
            ps = [q for p in ir._cat_parts(cur) for q in ir._cat_parts(p)]
            if ps and ps[-1].op == "SLit" and ps[-1].args:
                es = cur.sort[1]
                it.put(c, SCat(es, *ps[:-1], ir.SLit(es, *ps[-1].args[:-1])))
                return it.view(ps[-1].args[-1])
    raise Unsupported("list.%s" % name)


# ------------------------------------------------------------------ set
def set_add(it, c, v):
    check_hashable(it, v)
    cur = it.get(c)
    if isinstance(cur, tuple) and isinstance(c, Cell):
        if not cur: it.put(c, (v,)); return
        rs = [it.eq(x, v) for x in cur]
        if any(r is True for r in rs): return
        if all(r is False or (isinstance(r, Term) and r is FALSE) for r in rs):
            it.put(c, cur + (v,)); return
    es = elem_sort(it, c, v)
    t = it.as_term(v, es)
    st = it.as_term(c, SetS(es))
    it.put(c, SetOf(SCat(es, set_elems(st), SLit(es, t))))


def to_set_term(it, v, es=None):
    """any iterable -> Set term"""
    if isinstance(v, (Cell, Sub, Term)) and it.kindname(v) == "Set": t = it.as_term(v)
    else:
        s = it.seq_of(v)
        if isinstance(s, tuple):
            ss = it.complete(it.unify_all([it.sort_of(x) for x in s]))
            t = SetOf(SLit(ss, *[it.as_term(x, ss) for x in s]))
            if not s: t = SetOf(SEmpty(es or STR))
        else: t = SetOf(s)
    if es is not None and t.sort[1] != es: t = it.coerce(t, SetS(es))
    return t


def set_common(it, c, o):
    s1 = it.sort_of(c)[1]
    t2 = to_set_term(it, o)
    empty2 = set_elems(t2).op == "SLit" and not set_elems(t2).args
    es = it.complete(it.unify(s1, None if empty2 else t2.sort[1]))
    return it.as_term(c, SetS(es)), (SetOf(SEmpty(es)) if empty2 else it.coerce(t2, SetS(es))), es


def m_set(it, c, name, args, kwargs):
    if name == "add": set_add(it, c, args[0]); return NONE_T
    if name == "copy":
        return Cell("set", it.get(c))
    if name in ("update", "union", "difference", "intersection", "symmetric_difference", "difference_update", "intersection_update",
                "issubset", "issuperset", "isdisjoint"):
        cur = c
        if name in ("update", "difference_update", "intersection_update"):
            if name == "update":
                for a in args:
                    s = it.seq_of(a) if not (isinstance(a, (Cell, Sub, Term)) and it.kindname(a) == "Set") else None
                    if isinstance(s, tuple):
                        for x in s: set_add(it, c, x)
                        continue
                    a2 = a if s is None else s
                    t1, t2, es = set_common(it, c, a2)
                    it.put(c, SetOf(SCat(es, set_elems(t1), set_elems(t2))))
                return NONE_T
            r = m_set(it, c, name[:-7], args, kwargs)
            it.put(c, r.d["val"]); return NONE_T
        if name in ("issubset", "issuperset", "isdisjoint"):
            t1, t2, es = set_common(it, c, args[0])
            x = fresh("e", es)
            if name == "issubset": return SetLe(t1, t2)
            if name == "issuperset": return SetLe(t2, t1)
            return All(x, None, set_elems(t1), Not(SMem(set_elems(t2), x)))
        r = c
        for a in args:
            t1, t2, es = set_common(it, r, a)
            e1, e2 = set_elems(t1), set_elems(t2)
            if name == "union": t = SetOf(SCat(es, e1, e2))
            elif name == "difference": t = SetOf(sfilter(e1, lambda x: Not(SMem(e2, x))))
            elif name == "intersection": t = SetOf(sfilter(e1, lambda x: SMem(e2, x)))
            else: t = SetOf(SCat(es, sfilter(e1, lambda x: Not(SMem(e2, x))), sfilter(e2, lambda x: Not(SMem(e1, x)))))
            r = Cell("set", t)
        if not args: r = Cell("set", it.get(c))
        return r
    if name in ("discard", "remove"):
        v = args[0]
        m = it.contains(c, v)
        if name == "remove" and not it.branch(m): raise PyRaise(KeyError)
        if isinstance(m, bool) and not m: return NONE_T
        cur = it.get(c)
        if isinstance(cur, tuple):
            rs = [it.eq(x, v) for x in cur]
            if all(isinstance(r, bool) for r in rs):
                it.put(c, tuple(x for x, r in zip(cur, rs) if not r)); return NONE_T
        t = it.as_term(c)
        vv = it.as_term(v, t.sort[1])
        it.put(c, SetOf(sfilter(set_elems(t), lambda x: Not(VEq(x, vv)))))
        return NONE_T
    raise Unsupported("set.%s" % name)


# ------------------------------------------------------------------ dict
def const_keys(c): return all(isinstance(k, Term) and is_const(k) for k, _ in c)


def key_term(it, k, ks):
    """key -> term of the dict's key sort, or None when it cannot be a key"""
    if isinstance(k, tuple) or isinstance(k, Term) or isinstance(k, (type, types.GenericAlias, Raw)):
        k = it.unopt_if(k, ks) if isinstance(k, Term) else k
        if k is None: return None
        try: s = it.sort_of(k)
        except Unsupported: raise
        if s != ks:
            try: return it.as_term(k, ks)
            except Unsupported: return None
        return it.as_term(k)
    raise PyRaise(TypeError, where="unhashable key")


def map_sorts(it, c, k=None, v=None):
    s = it.sort_of(c)
    ks = it.complete(it.unify(s[1], it.sort_of(k) if k is not None else None))
    vs = s[2]
    if v is not None: vs = it.unify(vs, it.sort_of(v))
    return ks, it.complete(vs)


def dict_find(it, c, k):
    """(found value or None, decided)"""
    cur = it.get(c)
    if isinstance(cur, tuple):
        rs = [it.eq(k, kk) for kk, _ in cur]
        if all(isinstance(r, bool) or r is TRUE or r is FALSE for r in rs):
            for r, (kk, v) in zip(rs, cur):
                if r is True or r is TRUE: return ("hit", v)
            return ("miss", None)
        # fork on which key it equals
        for r, (kk, v) in zip(rs, cur):
            if it.branch(r): return ("hit", v)
        return ("miss", None)
    return ("term", None)


def dict_get(it, c, k, default=None, err=None):
    check_hashable(it, k)
    h, v = dict_find(it, c, k)
    if h == "hit": return v
    if h == "miss":
        if err: raise PyRaise(KeyError, where="key")
        return default
    t = it.as_term(c)
    kt = key_term(it, k, t.sort[1])
    if kt is None:
        if err: raise PyRaise(KeyError)
        return default
    has = MHas(t, kt)
    if not err and isinstance(default, Term) and default.sort == t.sort[2] and False: return Ite(has, MGet(t, kt), default)
    if it.branch(has):
        return it.view(MGet(t, kt), c, ("key", kt)) if isinstance(c, (Cell, Sub)) else it.view(MGet(t, kt))
    if err: raise PyRaise(KeyError, where="key")
    return default


def default_of(it, v):
    """default factory of a dict, also of the dicts a defaultdict of defaultdicts creates"""
    if isinstance(v, Cell): return v.default if v.kind == "dict" else None
    if isinstance(v, Sub) and v.path[0] == "key":
        d = default_of(it, v.parent)
        if d is None: return None
        x = it.call(d, [], {})
        return x.default if isinstance(x, Cell) and x.kind == "dict" else None
    return None


def dict_set(it, c, k, v):
    check_hashable(it, k)
    if isinstance(v, Cell) and v.kind == "dict":
        # a container of dicts of unknown shape does not record which of them are defaultdicts
        d = default_of(it, c)
        made = it.call(d, [], {}) if d is not None else None
        if (made.default if isinstance(made, Cell) else None) is not v.default and not (isinstance(made, Cell) and made.default is not None and v.default is not None):
            cur0 = it.get(c)
            if not (isinstance(cur0, tuple) and isinstance(c, Cell) and is_const(it.as_term(k)) if not isinstance(k, (Cell, Sub, tuple)) else False): raise Unsupported("defaultdict stored in another dict")
    cur = it.get(c)
    if isinstance(cur, tuple) and isinstance(c, Cell):
        rs = [it.eq(k, kk) for kk, _ in cur]
        if all(isinstance(r, bool) or r in (TRUE, FALSE) for r in rs):
            for n, r in enumerate(rs):
                if r is True or r is TRUE:
                    it.put(c, cur[:n] + ((cur[n][0], v),) + cur[n + 1:]); return
            it.put(c, cur + ((k, v),)); return
    s = it.sort_of(c)
    ks = it.complete(it.unify(s[1], it.sort_of(k)))
    vs = it.complete(it.unify(s[2], it.sort_of(v)))
    base = it.as_term(c, Map(ks, vs))
    if isinstance(cur, tuple):
        for _, x in cur: freeze(it, x)
    t = store(it, v, vs, c)
    it.put(c, MUpd(base, it.as_term(k, ks), t))


def dict_update(it, c, other):
    if isinstance(other, (Cell, Sub, Term)) and it.kindname(other) == "Map":
        o = it.get(other)
        if isinstance(o, tuple):
            for k, v in o: dict_set(it, c, k, v)
            return
        cur = it.get(c)
        s = it.unify(it.sort_of(c), o.sort); s = it.complete(s)
        base = it.as_term(c, s)
        if isinstance(cur, tuple):
            for _, x in cur: freeze(it, x)
        if holds_container(s[2]): mark_borrow(it, c)
        p1, p2 = pairs_of(base), pairs_of(it.coerce(o, s))
        it.put(c, MOf(SCat(p1.sort[1], p1, p2)))
        return
    s = it.seq_of(other)
    if isinstance(s, tuple):
        for p in s:
            kv = it.seq_of(p)
            dict_set(it, c, kv[0], kv[1])
        return
    cur = it.get(c)
    if isinstance(s.sort[1], tuple) and s.sort[1][0] == "Tup":
        srt = it.complete(it.unify(it.sort_of(c), Map(*s.sort[1][1])))
        base = it.as_term(c, srt)
        p1 = pairs_of(base)
        it.put(c, MOf(SCat(p1.sort[1], p1, it.coerce(s, Seq(Tup(srt[1], srt[2])))))); return
    raise Unsupported("dict.update")


def dict_remove(it, c, k):
    cur = it.get(c)
    if isinstance(cur, tuple):
        rs = [it.eq(k, kk) for kk, _ in cur]
        if all(isinstance(r, bool) or r in (TRUE, FALSE) for r in rs):
            it.put(c, tuple(p for p, r in zip(cur, rs) if r is False or r is FALSE)); return
    t = it.as_term(c)
    kt = key_term(it, k, t.sort[1])
    ps = pairs_of(t)
    it.put(c, MOf(sfilter(ps, lambda p: Not(Eq(Proj(0, p), kt)))))


def m_dict(it, c, name, args, kwargs):
    if name == "get":
        return dict_get(it, c, args[0], args[1] if len(args) > 1 else NONE_T)
    if name == "setdefault":
        k = args[0]; d = args[1] if len(args) > 1 else NONE_T
        r = dict_get(it, c, k, default=_MISSING)
        if r is not _MISSING: return r
        dict_set(it, c, k, d)
        if isinstance(it.get(c), tuple): return d
        t = it.as_term(c)
        kt = it.as_term(k, t.sort[1])
        return it.view(MGet(t, kt), c, ("key", kt))
    if name in ("items", "keys", "values"): return DictView(c, name)
    if name == "update":
        if args: dict_update(it, c, args[0])
        for k, v in kwargs.items(): dict_set(it, c, S(k), v)
        return NONE_T
    if name == "copy":
        n = Cell("dict", it.get(c), default=c.default if isinstance(c, Cell) else None)
        if holds_container(it.complete(it.sort_of(c)[2])): it.write(n, "borrows", True)
        return n
    if name == "pop":
        r = dict_get(it, c, args[0], default=_MISSING)
        if r is _MISSING:
            if len(args) > 1: return args[1]
            raise PyRaise(KeyError)
        if isinstance(r, Sub): r = it.get(r)
        dict_remove(it, c, args[0])
        return r
    if name == "clear": it.put(c, ()); return NONE_T
    if name == "__contains__": return it.contains(c, args[0])
    raise Unsupported("dict.%s" % name)


# ------------------------------------------------------------------ strings
class Bytes:
    """s.encode(): the UTF-8 bytes of a text (injective, so kept as the text)"""
    _pyvc_value_ = True
    def __init__(self, text): self.text = text


def regex_of(it, p, flags=0):
    """(pattern, flags) of a compiled pattern or a constant pattern string"""
    if isinstance(p, Raw) and isinstance(p.v, re.Pattern): p = p.v
    if isinstance(p, re.Pattern): return p.pattern, int(p.flags) & ~int(re.UNICODE)
    if isinstance(p, Term) and is_const(p) and p.sort == STR: return cval(p), int(flags)
    raise Unsupported("regular expression not known")


def in_re(pattern, flags, mode, s):
    try: return InRe(regexp.lang_key(pattern, flags, mode), s)
    except regexp.Unsupported as e: raise Unsupported("regex: %s" % e)


def re_match(it, pattern, flags, mode, s):
    s = it.unopt(s)
    if isinstance(s, Term) and s.sort == J:
        if not it.branch(JIs("str", s)): raise PyRaise(TypeError, where="expected string")
        s = JAs("str", s)
    if not (isinstance(s, Term) and s.sort == STR):
        raise PyRaise(TypeError, where="expected string or bytes-like object")
    c = in_re(pattern, flags, mode, s)
    if it.branch(c): return Match(pattern, flags, mode, s)
    return NONE_T


def match_group(it, m, name):
    if m.mode != "fullmatch": raise Unsupported("groups of a search")
    if name == 0 or name is None: return m.s
    gi = re.compile(m.pattern, m.flags).groupindex
    n = re.compile(m.pattern, m.flags).groups
    if isinstance(name, str) and name not in gi or isinstance(name, int) and not 0 < name <= n: raise PyRaise(IndexError, where="no such group")
    try:
        d = strings.group_dfa(m.pattern, m.flags, name)
        t = strings.group_term(d, m.s)
        if strings.always_set(d): return t
        return Ite(strings.group_term(d, m.s, "set"), SomeT(t), NoneOf(STR))
    except regexp.Unsupported as e: raise Unsupported("regex groups: %s" % e)


def m_str(it, s, name, args, kwargs):
    if name == "join":
        q = it.seq_of(args[0])
        if isinstance(q, tuple):
            ts = [it.as_term(x, STR) for x in q]
            if is_const(s) and cval(s) == "": return StrCat(*ts) if ts else S("")
            out = []
            for k, t in enumerate(ts):
                if k: out.append(s)
                out.append(t)
            return StrCat(*out) if out else S("")
        if q.sort[1] != STR: raise Unsupported("join of %s" % (q.sort,))
        if is_const(s) and cval(s) == "": return StrFlat(q)
        return mk("StrJoin", (s, q), STR)
    if name == "encode" and (not args or cval(args[0]).lower().replace("-", "") == "utf8"): return Bytes(s)
    if name in ("strip", "lower", "upper") and not args: return StrOp(name, s)
    if name in ("startswith", "endswith") and isinstance(args[0], Term): return StrOp(name, s, args[0], sort=BOOL)
    if name in ("removeprefix", "removesuffix", "replace"): return StrOp(name, s, *args)
    if name == "split" and args and is_const(args[0]):
        if "maxsplit" in kwargs or len(args) > 1:
            n = kwargs.get("maxsplit", args[1] if len(args) > 1 else None)
            if is_const(n) and cval(n) == 1:
                if it.branch(StrOp("contains", s, args[0], sort=BOOL)):
                    return Cell("list", (StrOp("before", s, args[0]), StrOp("after", s, args[0])))
                return Cell("list", (s,))
            raise Unsupported("split maxsplit")
        ir.STROPS.setdefault("split", lambda a, b: tuple(a.split(b)))
        return Cell("list", StrOp("split", s, args[0], sort=Seq(STR)))
    if name == "partition" and is_const(args[0]):
        if it.branch(StrOp("contains", s, args[0], sort=BOOL)):
            return (StrOp("before", s, args[0]), args[0], StrOp("after", s, args[0]))
        return (s, S(""), S(""))
    if name in ("isdigit", "isdecimal", "isspace", "isalnum", "isidentifier", "islower"): return StrOp(name, s, sort=BOOL)
    if name == "format": return StrOp("format", s)
    raise Unsupported("str.%s" % name)


ir.STROPS["str"] = lambda v: str(v) if isinstance(v, (str, int)) or v is None else _no_text()
def _no_text(): raise ir.Undefined("text of an object")
ir.STROPS["before"] = lambda s, p: s.split(p, 1)[0]
ir.STROPS["after"] = lambda s, p: s.split(p, 1)[1]
for _n in ("isdigit", "isdecimal", "isspace", "isalnum", "isidentifier", "islower"):
    ir.STROPS[_n] = lambda s, _n=_n: getattr(s, _n)()

DICT_METHODS = {"get", "items", "keys", "values", "setdefault", "pop", "update", "copy"}
STR_METHODS = {"strip", "split", "lower", "startswith", "endswith", "encode", "join"}


# ------------------------------------------------------------------ dispatch of methods / attributes
def method(it, recv, name, args, kwargs):
    recv = it.unopt(recv)
    if isinstance(recv, Opaque):
        from . import deps
        return deps.method(it, recv, name, args, kwargs)
    if isinstance(recv, Term) and recv.sort == J:
        if name in ("items", "keys", "values", "setdefault", "get"):
            if not it.branch(JIs("dict", recv)): raise PyRaise(AttributeError, where=name)
            return method(it, JAs("dict", recv), name, args, kwargs)
        if name in STR_METHODS:
            if not it.branch(JIs("str", recv)): raise PyRaise(AttributeError, where=name)
            return m_str(it, JAs("str", recv), name, args, kwargs)
        raise Unsupported("method %s of a JSON value" % name)
    if isinstance(recv, Match):
        if name == "group":
            if not args: return recv.s
            return match_group(it, recv, cval(args[0]))
        if name == "groupdict":
            names = re.compile(recv.pattern, recv.flags).groupindex
            return Cell("dict", tuple((S(n), match_group(it, recv, n)) for n in names))
        raise Unsupported("match.%s" % name)
    if isinstance(recv, re.Pattern) or (isinstance(recv, Raw) and isinstance(recv.v, re.Pattern)):
        p, fl = regex_of(it, recv)
        if name in ("fullmatch", "match", "search"): return re_match(it, p, fl, name, args[0])
        raise Unsupported("pattern.%s" % name)
    if isinstance(recv, DictView):
        if recv.what == "keys" and name in ("isdisjoint",): return m_set(it, it.as_set(recv), name, args, kwargs)
        raise Unsupported("dict view .%s" % name)
    if isinstance(recv, Sha):
        if name == "update":
            if not isinstance(args[0], Bytes): raise Unsupported("sha update")
            it.write(recv, "data", StrCat(recv.d["data"], args[0].text)); return NONE_T
        if name == "hexdigest": return App("sha256_hex", STR, recv.d["data"])
        raise Unsupported("sha." + name)
    if isinstance(recv, Raw):
        v = recv.v
        if callable(getattr(v, name, None)) and not args and not kwargs and isinstance(v, (str, int)): return it.lift(getattr(v, name)())
        raise Unsupported("method %s of %r" % (name, recv))
    if isinstance(recv, types.MappingProxyType): return it.lift(getattr(recv, name)(*[cval(a) for a in args]))
    k = it.kindname(recv)
    if k == "Seq": return m_list(it, recv, name, args, kwargs)
    if k == "Set": return m_set(it, recv, name, args, kwargs)
    if k == "Map": return m_dict(it, recv, name, args, kwargs)
    if k == STR: return m_str(it, recv, name, args, kwargs)
    if k == "Tup":
        if name == "index": return list_index(it, Cell("list", it.get(recv)), args[0])
    if k == "Iter" and name == "__next__": return py_next(it, [recv])
    if k == "Iter" and name == "close": return NONE_T
    raise Unsupported("method %s of %s" % (name, k))


def attr(it, v, name):
    if isinstance(v, Opaque):
        from . import deps
        return deps.attr(it, v, name)
    if isinstance(v, (Cell, Sub, tuple, Iter, Match, DictView)):
        if name == "__class__": return it.py_type(v)
        k = it.kindname(v)
        pyc = {"Seq": list, "Set": set, "Map": dict, "Tup": tuple}.get(k)
        if pyc is not None and not hasattr(pyc, name): raise PyRaise(AttributeError, where=name)
        return Meth(v, name)
    if isinstance(v, DCField):
        if name == "metadata": return Cell("dict", tuple((S(k), it.lift(x)) for k, x in v.f.metadata.items()))
        if name == "name": return S(v.f.name)
        raise Unsupported("field.%s" % name)
    if isinstance(v, (re.Pattern, Bytes, Sha)):
        if isinstance(v, re.Pattern) and name == "pattern": return S(v.pattern)
        return Meth(v, name)
    if isinstance(v, Raw):
        if isinstance(v.v, enum.Enum) and name in ("value", "name"): return it.lift(getattr(v.v, name))
        return Meth(v, name)
    if isinstance(v, ExcVal): raise Unsupported("exception attribute")
    if isinstance(v, types.GenericAlias):
        if not hasattr(v, name): raise PyRaise(AttributeError, where=name)
        return it.lift(getattr(v, name))
    if v is typing.Union and name == "__getitem__": return typing.Union.__getitem__
    if isinstance(v, Closure) and name in ("__name__",): return S(v.name)
    raise Unsupported("attribute %s of %r" % (name, v))


class DCField:
    _pyvc_value_ = True
    def __init__(self, f): self.f = f


class Sha(MObj):
    __slots__ = ()
    _pyvc_value_ = True
    def __init__(self): super().__init__({"data": S("")})


# ------------------------------------------------------------------ item access
def norm_index(it, v, k):
    return k


DICT_RECS: set = set()       # records that stand for dicts with exactly these (text) keys


def rec_items(it, v):
    """items of a dict that is represented by a record; None if v is not one"""
    if isinstance(v, Term) and isinstance(v.sort, tuple) and v.sort[0] == "Rec" and v.sort[1] in DICT_RECS:
        return tuple((S(f), getattr_rec(it, v, f)) for f, _ in ir.REC_FIELDS[v.sort[1]])


def literal_items(m):
    """items of a mapping term written out with constant, different keys; None if it is not"""
    if not (isinstance(m, Term) and m.op == "MOf" and m.args[0].op == "SLit"): return None
    es = m.args[0].args
    if all(e.op == "MkTup" and is_const(e.args[0]) for e in es) and len({e.args[0] for e in es}) == len(es): return tuple((e.args[0], e.args[1]) for e in es)
    return None


def getattr_rec(it, v, f):
    t = ir.Fld(v.sort[1], f, v)
    if isinstance(t.sort, tuple) and t.sort[0] in ("Seq", "Map", "Set"): return Cell({"Seq": "list", "Map": "dict", "Set": "set"}[t.sort[0]], t)
    return t


def getitem(it, v, k):
    v = it.unopt(v)
    if (items := rec_items(it, v)) is not None:
        kv = it.pyval(k)
        for a, b in items:
            if cval(a) == kv: return b
        raise Unsupported("subscript of a record-like dict")
    if isinstance(v, Term) and v.sort == J:
        if isinstance(k, Term) and k.sort == STR:
            if it.branch(JIs("dict", v)): return getitem(it, JAs("dict", v), k)
            raise PyRaise(TypeError, where="json subscript")
        v = it.j_container(v)
    if isinstance(v, type) or isinstance(v, types.GenericAlias):
        def host(k):
            if isinstance(k, Raw): return k.v
            if isinstance(k, tuple): return tuple(host(x) for x in k)
            if isinstance(k, type) or not isinstance(k, (Term, Cell, Sub, Obj)): return k
            raise Unsupported("class subscription")
        if any(isinstance(x, Term) and x.sort == U("type") for x in (k if isinstance(k, tuple) else (k,))):
            return App("generic", U("type"), it.as_term(v), *[it.as_term(x, U("type")) for x in (k if isinstance(k, tuple) else (k,))])
        return Raw(v[host(k)])
    kn = it.kindname(v)
    if kn == "Map":
        dflt = default_of(it, v)
        if dflt is not None:
            r = dict_get(it, v, k, default=_MISSING)
            if r is not _MISSING: return r
            d = it.call(dflt, [], {})
            dict_set(it, v, k, d)
            if isinstance(it.get(v), tuple): return d
            t = it.as_term(v); kt = it.as_term(k, t.sort[1])
            return it.view(MGet(t, kt), v, ("key", kt))
        return dict_get(it, v, k, err=True)
    if kn in ("Seq", "Tup"):
        c = it.get(v)
        if isinstance(c, Term) and c.op == "SLit" and isinstance(k, Term) and is_const(k): pass
        if isinstance(c, tuple):
            if isinstance(k, Term) and is_const(k):
                n = cval(k)
                if not -len(c) <= n < len(c): raise PyRaise(IndexError)
                return c[n]
            if not c: raise PyRaise(IndexError)
            c = it.as_term(v)
        if c.sort[0] == "Tup" and is_const(k): return it.view(Proj(cval(k), c))
        if is_const(k) and cval(k) < 0:
            n = SLen(c)
            if not it.branch(Not(Lt(n, I(-cval(k))))): raise PyRaise(IndexError)
            i = ir.Sub(n, I(-cval(k)))
        else:
            i = k
            ok = And(Not(Lt(i, I(0))), Lt(i, SLen(c)))
            if is_const(i) and cval(i) == 0: ok = NonEmpty(c)
            if i.op == "SIdx" : pass
            if index_ok(it, c, i): ok = TRUE
            if not it.branch(ok):
                raise PyRaise(IndexError)
        return it.view(SNth(c, i), v if isinstance(v, (Cell, Sub)) else None, ("idx", i))
    if kn == STR and isinstance(k, Term) and k.sort == INT:
        raise Unsupported("string index")
    if isinstance(v, Match): return match_group(it, v, cval(k))
    if isinstance(v, Obj) and hasattr(v.cls, "__getitem__"): return it.call_method(v, "__getitem__", [k], {})
    raise Unsupported("subscript of %r" % (v,))


def index_ok(it, c, i):
    """i is in range of c for structural reasons: i = SIdx(s, v) with v in s known and len(c) = len(s)"""
    if i.op == "SIdx":
        s, v = i.args
        if it.known(SMem(s, v)) is True:
            n1, n2 = SLen(c), SLen(s)
            if n1 is n2: return True
    return False


def setitem(it, v, k, x):
    v = it.unopt(v)
    kn = it.kindname(v)
    if kn == "Map": return dict_set(it, v, k, x)
    if kn == "Seq":
        c = it.get(v)
        if isinstance(c, tuple):
            if is_const(k):
                n = cval(k)
                if not -len(c) <= n < len(c): raise PyRaise(IndexError)
                n %= len(c)
                it.put(v, c[:n] + (x,) + c[n + 1:]); return
            c = it.as_term(v)
        if index_ok(it, c, k): ok = True
        else: ok = it.branch(And(Not(Lt(k, I(0))), Lt(k, SLen(c))))
        if not ok: raise PyRaise(IndexError)
        it.put(v, SUpd(c, k, it.as_term(x, c.sort[1]))); return
    if isinstance(v, Obj) and hasattr(v.cls, "__setitem__"):
        it.call_method(v, "__setitem__", [k, x], {}); return
    raise Unsupported("item assignment on %r" % (v,))


def delitem(it, v, k):
    v = it.unopt(v)
    if it.kindname(v) == "Map":
        r = dict_get(it, v, k, default=_MISSING)
        if r is _MISSING: raise PyRaise(KeyError)
        dict_remove(it, v, k); return
    raise Unsupported("del item")


def slice_(it, v, lo, hi):
    v = it.unopt(v)
    kn = it.kindname(v)
    if kn == STR:
        for b in (lo, hi):
            if b is not None and not (is_const(b) and cval(b) >= 0):
                if is_const(b) and b is hi and lo is None: return StrOp("prefix", v, b)
                raise Unsupported("slice bounds")
        return SliceStr(v, lo, hi)
    if kn in ("Seq", "Tup"):
        c = it.get(v)
        if isinstance(c, tuple):
            if all(b is None or is_const(b) for b in (lo, hi)):
                r = c[(None if lo is None else cval(lo)):(None if hi is None else cval(hi))]
                return r if isinstance(v, tuple) else Cell("list", r)
            c = it.as_term(v)
        if lo is None and hi is None: return Cell("list", c)
        if lo is None and (not is_const(hi) or cval(hi) >= 0): return Cell("list", SPrefix(c, hi))
        if hi is None and is_const(lo) and cval(lo) >= 0: return Cell("list", SSuffix(c, lo))
    raise Unsupported("slice of %s" % kn)


# ------------------------------------------------------------------ builtins
def as_seq_term(it, v):
    s = it.seq_of(v)
    return s


def py_list(it, args):
    if not args: return Cell("list", ())
    if isinstance(args[0], Groups): raise Unsupported("list(groupby)")
    s = it.seq_of(args[0])
    c = Cell("list", s)
    if isinstance(s, Term) and holds_container(s.sort[1]): c.d["borrows"] = True
    return c


def py_sorted(it, args, kwargs):
    s = it.seq_of(args[0])
    rev = kwargs.get("reverse", FALSE)
    if not is_const(rev): raise Unsupported("sorted reverse")
    rev = cval(rev)
    key = kwargs.get("key")
    if isinstance(key, Term) and key.sort == NONE: key = None
    if isinstance(s, tuple):
        if len(s) <= 1:
            if key is not None:
                for v in s: it.call(key, [v], {})
            return Cell("list", s)
        if all(isinstance(v, Term) and is_const(v) for v in s) and key is None:
            return Cell("list", tuple(it.lift(x) for x in sorted([cval(v) for v in s], reverse=rev)))
        s = it.as_term(Iter(s))
    # the key function is evaluated once per element, before sorting
    es = s.sort[1]
    x = fresh("x", es)
    if key is None:
        if es == J: raise Unsupported("sorting JSON values")
        return Cell("list", SSort(x, s, sort_key(it, x), rev))
    x, kx = keyfun(it, key, s)
    return Cell("list", SSort(x, s, sort_key(it, kx), rev))


def sort_key(it, k):
    s = k.sort
    if isinstance(s, tuple) and s[0] == "Rec":
        pc = RECS_BY_NAME[s[1]].pycls
        if not hasattr(pc, "__dataclass_params__") or not pc.__dataclass_params__.order:
            raise PyRaise(TypeError, where="unorderable")
        return natkey(k)
    if isinstance(s, tuple) and s[0] == "Tup": return MkTup(*[sort_key(it, Proj(i, k)) for i in range(len(s[1]))])
    if isinstance(s, tuple) and s[0] == "Seq" or s in (STR, INT, BOOL): return k
    raise Unsupported("sort key of sort %s" % (s,))


def elementwise(kt, s, x):
    """kt = [f(y) for y in s]  ->  f(x)"""
    if kt is s: return x
    if kt.op != "SComp" or kt.args[0] is not s or len(kt.data[0]) != 1: 
        if kt.op == "Ite" and not kt.args[0].fv & {x}:
            a, b = elementwise(kt.args[1], s, x), elementwise(kt.args[2], s, x)
            return None if a is None or b is None else Ite(kt.args[0], a, b)
        return None
    def one(t):
        if t.op == "SLit": return t.args[0] if len(t.args) == 1 else None
        if t.op == "Ite":
            a, b = one(t.args[1]), one(t.args[2])
            return None if a is None or b is None else Ite(t.args[0], a, b)
        return None
    r = one(kt.args[1])
    return None if r is None else subst(r, {kt.data[0][0]: x})


def keyfun(it, key, s):
    """f with key(x) = f(x) for every element x of s, evaluated symbolically on a generic element"""
    es = s.sort[1]
    x = fresh("x", es)
    # evaluated over a name for the sequence, so that fusion does not hide the element
    q = s if s.op in ("Var", "Fld") else mk("Opq", (s,), s.sort)
    pairs = Cell("list", ())
    def body(v): it.call_method(pairs, "append", [it.call(key, [v], {})], {})
    keep = it.opq
    if q is not s: it.opq = tuple(keep) + (q,)
    try: it.for_each(q, body)
    finally: it.opq = keep
    kt = it.as_term(pairs)
    kx = elementwise(kt, q, x)
    if kx is None: raise Unsupported("the key is not a function of the element: %s" % show(kt)[:300])
    if q is not s: kx = ir.replace(kx, q, s)
    return x, kx


def py_filter(it, f, v):
    s = it.seq_of(v)
    out = Cell("list", ())
    def body(e):
        r = it.call(f, [e], {}) if not (isinstance(f, Term) and f.sort == NONE) else e
        if it.test(r): it.call_method(out, "append", [e], {})
    it.for_each(s, body)
    return Iter(out.d["val"])


def py_map(it, f, vs):
    if len(vs) != 1: raise Unsupported("map with several iterables")
    s = it.seq_of(vs[0])
    out = Cell("list", ())
    def body(e): it.call_method(out, "append", [it.call(f, [e], {})], {})
    it.for_each(s, body)
    return Iter(out.d["val"])


def bool_seq(it, v):
    """sequence of truth values"""
    s = it.seq_of(v)
    if isinstance(s, tuple): return [it.truth(x) for x in s]
    if s.sort[1] == BOOL: return s
    out = Cell("list", ())
    def body(e):
        t = it.truth(e)
        it.call_method(out, "append", [t if isinstance(t, Term) else B(t)], {})
    it.for_each(s, body)
    return it.as_term(out, Seq(BOOL))


def py_any(it, v):
    s = bool_seq(it, v)
    if isinstance(s, list): return Or(*[x if isinstance(x, Term) else B(x) for x in s])
    x = fresh("b", BOOL)
    return Ex(x, None, s, x)


def py_all(it, v):
    s = bool_seq(it, v)
    if isinstance(s, list): return And(*[x if isinstance(x, Term) else B(x) for x in s])
    x = fresh("b", BOOL)
    return All(x, None, s, x)


def py_min(it, args, kwargs, big=False):
    if len(args) == 1:
        s = it.seq_of(args[0])
        if isinstance(s, Term):
            s0 = s
            if s.op == "SCat" and s.args[0].op == "SLit" and s.sort[1] == INT and not big:
                r = s.args[0].args[0]
                for a in s.args[0].args[1:]: r = Ite(Lt(a, r), a, r)
                for p in s.args[1:]:
                    x = fresh("x", INT)
                    r = MinOf(x, p, TRUE, x, r)
                return r
            d = kwargs.get("default")
            if s.sort[1] == INT and not big and d is not None:
                if not it.branch(NonEmpty(s)): return d
                x = fresh("x", INT)
                return MinOf(x, s, TRUE, x, SNth(s, I(0)))
            raise Unsupported("min of a sequence")
        args = list(s)
        if not args:
            if "default" in kwargs: return kwargs["default"]
            raise PyRaise(ValueError)
    if "key" in kwargs: raise Unsupported("min key")
    r = args[0]
    for a in args[1:]:
        ta, tr = it.as_term(a), it.as_term(r)
        r = Ite(Lt(tr, ta) if big else Lt(ta, tr), ta, tr)
    return r


def py_next(it, args):
    g = args[0]
    if isinstance(g, Iter):
        s = g.d["seq"]
        if isinstance(s, tuple):
            if s: it.write(g, "seq", s[1:]); return s[0]
            if len(args) > 1: return args[1]
            raise PyRaise(StopIteration)
        if it.branch(NonEmpty(s)):
            it.write(g, "seq", SSuffix(s, I(1)))
            return it.view(SNth(s, I(0)))
        if len(args) > 1: return args[1]
        raise PyRaise(StopIteration)
    raise Unsupported("next(%r)" % (g,))


def py_isinstance(it, v, cls):
    v = it.unopt(v)
    if isinstance(cls, tuple):
        rs = [py_isinstance(it, v, c) for c in cls]
        return Or(*[r if isinstance(r, Term) else B(r) for r in rs])
    if isinstance(cls, Raw) and isinstance(cls.v, tuple) and cls.v[0] == "union":
        return py_isinstance(it, v, (cls.v[1], cls.v[2]))
    if isinstance(cls, Raw): cls = cls.v
    if isinstance(cls, types.UnionType): return py_isinstance(it, v, tuple(cls.__args__))
    if isinstance(v, Term) and v.sort == J:
        if cls is str: return JIs("str", v)
        if cls is bool: return JIs("bool", v)
        if cls is int: return Or(JIs("int", v), JIs("bool", v))
        if cls is float: return JIs("float", v)
        if cls is list: return JIs("list", v)
        if cls is dict: return JIs("dict", v)
        if cls is type(None): return JIs("null", v)
        if cls is collections.abc.Mapping: return JIs("dict", v)
        if cls is collections.abc.Iterable: return Or(JIs("str", v), JIs("list", v), JIs("dict", v))
        return False
    if getattr(cls, "_is_protocol", False) and not issubclass(cls, collections.abc.Iterable): return shape(it, v, cls)
    t = it.py_type(v)
    if t is None: raise Unsupported("isinstance of %r" % (v,))
    if isinstance(v, Iter) and cls in (collections.abc.Iterable, collections.abc.Iterator, collections.abc.Generator): return True
    if not isinstance(cls, type): raise Unsupported("isinstance %r" % (cls,))
    return issubclass(t, cls)


# ---- validate_type: contract of the library's own runtime type check (C22 checks it against the same definition)
def shape(it, v, t):
    """Bool term / bool: value v has the declared shape t"""
    if isinstance(t, Raw): t = t.v
    if t is typing.Any: return True
    v = it.unopt(v)
    o = typing.get_origin(t)
    if isinstance(t, types.GenericAlias):
        a = typing.get_args(t)
        if isinstance(v, Term) and v.sort == J:
            if o is list:
                x = fresh("e", J)
                return And(JIs("list", v), All(x, None, JAs("list", v), asbool(shape(it, x, a[0]))))
            if o is dict:
                x = fresh("k", STR)
                d = JAs("dict", v)
                kx = shape(it, x, a[0])
                return And(JIs("dict", v), All(x, None, SKeys(d), And(asbool(kx), asbool(shape(it, MGet(d, x), a[1])))))
            return False
        if isinstance(v, DictView) or isinstance(v, Iter): return False
        k = it.kindname(v)
        if o is list and k == "Seq" or o is set and k == "Set":
            c = it.get(v)
            if isinstance(c, tuple): return it.conj([shape(it, x, a[0]) for x in c])
            x = fresh("e", c.sort[1])
            r = shape(it, x, a[0])
            if r is True or r is TRUE: return True
            return All(x, None, c if k == "Seq" else set_elems(c), asbool(r))
        if o is dict and k == "Map":
            c = it.get(v)
            if isinstance(c, tuple): return it.conj([shape(it, kk, a[0]) for kk, _ in c] + [shape(it, x, a[1]) for _, x in c])
            x = fresh("k", c.sort[1])
            r = it.conj([shape(it, x, a[0]), shape(it, MGet(c, x), a[1])])
            if r is True or r is TRUE: return True
            return All(x, None, SKeys(c), asbool(r))
        return False
    if t is str:
        if isinstance(v, Term): return True if v.sort == STR else JIs("str", v) if v.sort == J else False
        return False
    if t is collections.abc.Iterable:
        if isinstance(v, Term):
            if v.sort == J: return Or(JIs("str", v), JIs("list", v), JIs("dict", v))
            return v.sort == STR or is_container_sort(v.sort) or (isinstance(v.sort, tuple) and v.sort[0] == "Tup")
        return isinstance(v, (Cell, Sub, Iter, tuple, DictView))
    if getattr(t, "_is_protocol", False):
        pc = it.py_type(v)
        if isinstance(v, Term) and v.sort == J: return False
        if isinstance(v, Obj): return all(n in v.d or hasattr(v.cls, n) for n in t.__protocol_attrs__)
        if isinstance(v, Term) and isinstance(v.sort, tuple) and v.sort[0] == "Rec":
            fs = dict(RECS_BY_NAME[v.sort[1]].fields)
            return all(n in fs or hasattr(pc, n) for n in t.__protocol_attrs__)
        return False
    if isinstance(v, Term) and v.sort == J:
        k = {bool: "bool", int: "int", float: "float", list: "list", dict: "dict", type(None): "null"}.get(t)
        return JIs(k, v) if k else False
    pc = it.py_type(v)
    if pc is None: raise Unsupported("shape of %r" % (v,))
    return pc is t


def asbool(x): return x if isinstance(x, Term) else B(x)


def lib_validate_type(it, args, kwargs):
    v, t = (args + [kwargs.get("expected_type")])[:2] if len(args) < 2 else args[:2]
    r = shape(it, v, t)
    from variantlib.validators.base import ValidationError as VE
    if not it.branch(r): raise PyRaise(VE, where="validate_type")
    return NONE_T


# ------------------------------------------------------------------ records
def rec_construct(it, cls, args, kwargs):
    """run the class's own __init__/__post_init__ on a fresh object, then seal it as a value"""
    info = RECS[cls]
    o = Obj(cls, {})
    it.init_obj(o, args, kwargs)
    return seal(it, o)


def seal(it, o):
    info = RECS[o.cls]
    vals = []
    for f, s in info.fields:
        v = o.d[f]
        vals.append(it.as_term(v, s))
        freeze(it, v)
    return MkRec(info.name, *vals)


def py_asdict(it, v):
    if isinstance(v, Term) and isinstance(v.sort, tuple) and v.sort[0] == "Rec":
        info = RECS_BY_NAME[v.sort[1]]
        return Cell("dict", tuple((S(f), asdict_val(it, Fld(info.name, f, v))) for f, _ in info.fields))
    if isinstance(v, Obj) and dataclasses.is_dataclass(v.cls):
        return Cell("dict", tuple((S(f.name), asdict_val(it, v.d[f.name])) for f in dataclasses.fields(v.cls)))
    raise Unsupported("asdict(%r)" % (v,))


def rec_as_map(it, t):
    """a record of string fields as a str->str mapping term"""
    info = RECS_BY_NAME[t.sort[1]]
    if any(s != STR for _, s in info.fields): raise Unsupported("asdict of a nested record in a list")
    return MOf(SLit(Tup(STR, STR), *[MkTup(S(f), Fld(info.name, f, t)) for f, _ in info.fields]))


def asdict_val(it, v):
    if isinstance(v, Sub): v = it.get(v)
    if isinstance(v, Term):
        s = v.sort
        if isinstance(s, tuple):
            if s[0] == "Rec": return py_asdict(it, v)
            if s[0] == "Seq":
                if isinstance(s[1], tuple) and s[1][0] == "Rec": return Cell("list", smap(v, lambda x: rec_as_map(it, x)))
                if _atomic(s[1]): return Cell("list", v)
            if s[0] == "Map" and not _has_rec(s): return Cell("dict", v)
            raise Unsupported("asdict of %s" % (s,))
        return v
    if isinstance(v, Cell):
        c = v.d["val"]
        if isinstance(c, Term): return asdict_val(it, c)
        if v.kind == "list": return Cell("list", tuple(asdict_val(it, x) for x in c))
        if v.kind == "dict": return Cell("dict", tuple((k, asdict_val(it, x)) for k, x in c))
    if isinstance(v, Obj): return py_asdict(it, v)
    raise Unsupported("asdict of %r" % (v,))


def _atomic(s): return s in (STR, INT, BOOL, NONE)
def _has_rec(s):
    if not isinstance(s, tuple): return False
    if s[0] == "Rec": return True
    return any(_has_rec(x) for x in s[1:]) if s[0] != "Tup" else any(_has_rec(x) for x in s[1])


# ------------------------------------------------------------------ the table
def call_lib(it, fn, args, kwargs):
    try: h = TABLE.get(fn)
    except TypeError: h = None
    if h is not None:
        USED[getattr(fn, "__qualname__", str(fn))] += 1
        return h(it, args, kwargs)
    if isinstance(fn, functools.partial):
        return it.call(it.lift(fn.func), [it.lift(a) for a in fn.args] + args, {**{k: it.lift(v) for k, v in fn.keywords.items()}, **kwargs})
    # bound methods of builtins: "sep".join etc. reached through lift()
    s = getattr(fn, "__self__", None)
    if s is not None and isinstance(fn, types.BuiltinMethodType) and not isinstance(s, types.ModuleType) and isinstance(s, (re.Pattern,)):
        return method(it, s, fn.__name__, args, kwargs)
    return NO


def _type(it, args, kwargs):
    if len(args) != 1: raise Unsupported("type()")
    v = it.unopt(args[0])
    if isinstance(v, Term) and v.sort == J:
        for k, c in (("str", str), ("bool", bool), ("list", list), ("dict", dict), ("null", type(None)), ("int", int), ("float", float)):
            if it.branch(JIs(k, v)): return c
        return object
    t = it.py_type(v)
    if t is None: raise Unsupported("type of %r" % (v,))
    return t


def _host(v):
    if isinstance(v, Raw): return v.v
    if isinstance(v, (type, types.GenericAlias)): return v
    if isinstance(v, tuple): return tuple(_host(x) for x in v)
    raise Unsupported("a class that is not known")


def _issubclass(it, args, kwargs): return B(issubclass(_host(args[0]), _host(args[1])))
def _get_origin(it, args, kwargs): return it.lift(typing.get_origin(_host(args[0])))
def _get_args(it, args, kwargs): return tuple(it.lift(x) for x in typing.get_args(_host(args[0])))


def _union(it, args, kwargs):
    """Union[types]: some type"""
    a = args[0]
    return App("union", U("type"), it.as_term(a if isinstance(a, Term) else Cell("list", tuple(a) if isinstance(a, tuple) else (a,))))


def _getattr(it, args, kwargs):
    n = args[1]
    if not is_const(n): raise Unsupported("getattr with a computed name")
    if len(args) == 2: return it.getattr(args[0], cval(n))
    try: return it.getattr(args[0], cval(n))
    except PyRaise as e:
        if issubclass(e.cls, AttributeError): return args[2]
        raise


def _hasattr(it, args, kwargs):
    v = it.unopt(args[0])
    if isinstance(v, (type, types.GenericAlias)): return B(hasattr(v, cval(args[1])))
    if isinstance(v, Obj): return B(cval(args[1]) in v.d or hasattr(v.cls, cval(args[1])))
    t = it.py_type(v)
    if isinstance(v, Term) and isinstance(v.sort, tuple) and v.sort[0] == "Rec":
        return B(cval(args[1]) in dict(RECS_BY_NAME[v.sort[1]].fields) or hasattr(t, cval(args[1])))
    if t is None: raise Unsupported("hasattr")
    return B(hasattr(t, cval(args[1])))


def _setattr_obj(it, args, kwargs):
    o, n, v = args
    if not isinstance(o, Obj): raise Unsupported("object.__setattr__")
    it.write(o, cval(n), v)
    return NONE_T


def _obj_new(it, args, kwargs):
    return Obj(args[0], {})


def _set(it, args, kwargs):
    c = Cell("set", ())
    if args:
        a = args[0]
        if isinstance(a, (Cell, Sub, Term)) and it.kindname(a) == "Set": return Cell("set", it.get(a))
        s = it.seq_of(a)
        if isinstance(s, tuple):
            for v in s: set_add(it, c, v)
        else:
            x = fresh("h", s.sort[1])
            if s.sort[1] == J:
                if it.branch(Ex(x, None, s, Or(JIs("dict", x), JIs("list", x)))): raise PyRaise(TypeError, where="unhashable")
            elif is_container_sort(s.sort[1]):
                if it.branch(NonEmpty(s)): raise PyRaise(TypeError)
            return Cell("set", SetOf(s))
    return c


def _dict(it, args, kwargs):
    c = Cell("dict", ())
    if args:
        a = it.unopt(args[0])
        if isinstance(a, Term) and a.sort == J:
            if not it.branch(JIs("dict", a)): raise Unsupported("dict(json)")
            a = JAs("dict", a)
        if isinstance(a, (Cell, Sub, Term)) and it.kindname(a) == "Map":
            cur = it.get(a)
            c = Cell("dict", cur)
            if isinstance(cur, Term) and holds_container(cur.sort[2]):
                c.d["borrows"] = True
        else:
            s = it.seq_of(a)
            c = it.make_dict(s)
    for k, v in kwargs.items(): dict_set(it, c, S(k), v)
    return c


def _defaultdict(it, args, kwargs):
    c = Cell("dict", (), default=args[0] if args and not (isinstance(args[0], Term)) else None)
    if len(args) > 1: dict_update(it, c, args[1])
    return c


def _tuple(it, args, kwargs):
    if not args: return ()
    s = it.seq_of(args[0])
    if isinstance(s, tuple): return s
    it.tuples.add(s)
    return s          # a tuple of unknown length is represented by its sequence term


def _enumerate(it, args, kwargs):
    s = it.seq_of(args[0])
    start = cval(args[1]) if len(args) > 1 else cval(kwargs["start"]) if "start" in kwargs else 0
    if isinstance(s, tuple): return tuple((I(k + start), v) for k, v in enumerate(s))
    x, i = fresh("x", s.sort[1]), fresh("i", INT)
    t = MkTup(Add(i, I(start)), x)
    return SComp(x, i, s, SLit(t.sort, t))


def _zip(it, args, kwargs):
    ss = [it.seq_of(a) for a in args]
    if all(isinstance(s, tuple) for s in ss): return tuple(zip(*ss))
    if len(ss) == 2 and all(isinstance(s, Term) for s in ss):
        a, b = ss
        if SLen(a) is SLen(b):
            x, i = fresh("x", a.sort[1]), fresh("i", INT)
            t = MkTup(x, SNth(b, i))
            return SComp(x, i, a, SLit(t.sort, t))
    raise Unsupported("zip")


def _range(it, args, kwargs):
    if len(args) == 1: return it.view(SRange(args[0])) if not is_const(args[0]) else tuple(I(k) for k in range(cval(args[0])))
    if all(is_const(a) for a in args): return tuple(I(k) for k in range(*[cval(a) for a in args]))
    if len(args) == 2 and is_const(args[0]):
        i = fresh("i", INT)
        return SComp(i, None, SRange(ir.Sub(args[1], args[0])), SLit(INT, Add(i, args[0])))
    raise Unsupported("range")


def _chain(it, args, kwargs):
    out = Cell("list", ())
    for a in args: list_extend(it, out, a)
    return Iter(out.d["val"])


def _chain_from(it, args, kwargs):
    s = it.seq_of(args[0])
    out = Cell("list", ())
    def body(v): list_extend(it, out, v)
    it.for_each(s, body)
    return Iter(out.d["val"])


def _groupby(it, args, kwargs):
    s = it.seq_of(args[0])
    key = args[1] if len(args) > 1 else kwargs.get("key")
    if isinstance(s, tuple): s = it.as_term(Iter(s))
    if key is None: x = fresh("x", s.sort[1]); kx = x
    else: x, kx = keyfun(it, key, s)
    return Groups(s, x, kx)


def _hash(it, args, kwargs):
    v = args[0]
    check_hashable(it, v)
    if isinstance(v, Obj): raise Unsupported("hash of object")
    return HashOf(hashed(it, v))


def hashed(it, v):
    if isinstance(v, tuple): return MkTup(*[hashed(it, x) for x in v])
    if isinstance(v, Bytes): return v.text
    if isinstance(v, Opaque): return v.term
    return it.as_term(v)


def _sha256(it, args, kwargs):
    h = Sha()
    if args:
        if not isinstance(args[0], Bytes): raise Unsupported("sha256 data")
        h.d["data"] = args[0].text
    return h


def _str(it, args, kwargs):
    if not args: return S("")
    return it.to_str(args[0])


def _bool(it, args, kwargs):
    t = it.truth(args[0])
    return t if isinstance(t, Term) else B(t)


def _sum(it, args, kwargs):
    s = it.seq_of(args[0])
    if isinstance(s, tuple): return Add(*[it.as_term(x, INT) for x in s]) if s else I(0)
    x = fresh("x", s.sort[1])
    return Sum(x, None, s, it.coerce(x, INT))


def _fullmatch(mode):
    def h(it, args, kwargs):
        p = args[0]; s = args[1]
        fl = 0
        pat, flags = regex_of(it, p, fl)
        return re_match(it, pat, flags, mode, s)
    return h


def _copy_(it, args, kwargs):
    v = it.unopt(args[0])
    if isinstance(v, (Cell, Sub)):
        k = it.kindname(v)
        if k == "Map": return m_dict(it, v, "copy", [], {})
        return Cell({"Seq": "list", "Set": "set"}[k], it.get(v))
    if isinstance(v, Term): return v
    raise Unsupported("copy")


def _deepcopy(it, args, kwargs):
    v = it.unopt(args[0])
    return deep(it, v)


def deep(it, v):
    if isinstance(v, Sub): return Cell({"Seq": "list", "Set": "set", "Map": "dict"}[v.sort[0]], it.get(v))
    if isinstance(v, Cell):
        c = v.d["val"]
        if isinstance(c, Term): return Cell(v.kind, c, default=v.default)
        if v.kind == "dict": return Cell("dict", tuple((k, deep(it, x)) for k, x in c), default=v.default)
        return Cell(v.kind, tuple(deep(it, x) for x in c))
    if isinstance(v, tuple): return tuple(deep(it, x) for x in v)
    if isinstance(v, Term): return v
    if isinstance(v, Obj):
        n = Obj(v.cls, {})
        for k, x in v.d.items(): n.d[k] = deep(it, x)
        return n
    if isinstance(v, (Raw, type)): return v
    raise Unsupported("deepcopy")


def _iter(it, args, kwargs):
    if isinstance(args[0], Iter): return args[0]
    return Iter(it.seq_of(args[0]))


def _int(it, args, kwargs):
    v = it.as_term(args[0])
    if v.sort == INT: return v
    if v.sort == BOOL: return Ite(v, I(1), I(0))
    raise Unsupported("int()")


class DField: pass


TABLE = {
    len: lambda it, a, k: it.length(a[0]),
    isinstance: lambda it, a, k: asbool(py_isinstance(it, a[0], a[1])),
    issubclass: _issubclass, typing.get_origin: _get_origin, typing.get_args: _get_args, typing.Union.__getitem__: _union,
    type: _type, getattr: _getattr, hasattr: _hasattr,
    list: lambda it, a, k: py_list(it, a), tuple: _tuple, set: _set, frozenset: _set, dict: _dict,
    sorted: py_sorted, min: lambda it, a, k: py_min(it, a, k), max: lambda it, a, k: py_min(it, a, k, big=True),
    any: lambda it, a, k: py_any(it, a[0]), all: lambda it, a, k: py_all(it, a[0]), sum: _sum,
    filter: lambda it, a, k: py_filter(it, a[0], a[1]), map: lambda it, a, k: py_map(it, a[0], a[1:]),
    zip: _zip, enumerate: _enumerate, range: _range, str: _str, bool: _bool, hash: _hash, iter: _iter, int: _int,
    repr: lambda it, a, k: it.to_repr(a[0]),
    next: lambda it, a, k: py_next(it, a), reversed: lambda it, a, k: (lambda s: s[::-1] if isinstance(s, tuple) else SRev(s))(it.seq_of(a[0])),
    object.__setattr__: _setattr_obj, object.__new__: _obj_new,
    collections.defaultdict: _defaultdict,
    itertools.chain: _chain, itertools.chain.from_iterable: _chain_from, itertools.groupby: _groupby,
    contextlib.suppress: lambda it, a, k: Suppress(tuple(a)),
    dataclasses.asdict: lambda it, a, k: py_asdict(it, a[0]),
    re.fullmatch: _fullmatch("fullmatch"), re.match: _fullmatch("match"), re.search: _fullmatch("search"),
    hashlib.sha256: _sha256, _copy.copy: _copy_, _copy.deepcopy: _deepcopy,
    print: lambda it, a, k: NONE_T,
}
