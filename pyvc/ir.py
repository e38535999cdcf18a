"""Logical terms of the verifier: hash-consed, sorted, with smart constructors.

Every constructor here only applies rewrites that are valid in the intended
semantics given by `ev` (the evaluator at the end of this file); the rewrites
that need induction over sequences are stated and machine-checked in
/verif/lean/Lemmas.lean.

Sorts:  'Bool' 'Int' 'Str' 'J' 'None', ('Seq',s) ('Set',s) ('Map',k,v)
        ('Rec',cls) ('Tup',(s1,..,sn)) ('U',name)
"""
from __future__ import annotations
import sys
import itertools

BOOL, INT, STR, J, NONE = "Bool", "Int", "Str", "J", "None"


def Seq(s): return ("Seq", s)
def SetS(s): return ("Set", s)
def Map(k, v): return ("Map", k, v)
def Rec(c): return ("Rec", c)
def Tup(*ss): return ("Tup", tuple(ss))
def Opt(s): return ("Opt", s)
def U(n): return ("U", n)


class IRError(Exception):
    pass


class Term:
    __slots__ = ("op", "args", "sort", "data", "fv", "_h", "uid", "lev", "__weakref__")
    def __repr__(self):
        return show(self)
    def __hash__(self):
        return self._h
    def __eq__(self, o):
        return self is o
    # guard against accidental use as python bool
    def __bool__(self):
        raise IRError("truth value of symbolic term taken: %s" % show(self))


_table: dict = {}
_uid = itertools.count()
# binder ops: data[0] = tuple of bound variables; args[0] = source sequence (bound vars not in scope),
# remaining args are in the scope of the bound variables
BINDERS = {"GroupOf", "SComp", "Dup", "Ex", "SSort", "SDedup", "First", "Last", "Sum", "MinOf", "MGroup", "SUntil", "MKFold", "SGroupBy"}


def mk(op, args, sort, data=None):
    args = tuple(args)
    if op in BINDERS:
        # canonical bound variables (alpha-equivalent terms are identical): the level of a
        # binder is one more than the levels of the binders inside its scope
        n = 1 + max([a.lev for a in args[1:]], default=0)
        bs = data[0]
        want = tuple(Var("%s%d" % ("\u03b2" if j == 0 else "\u03b9", n), b.sort) for j, b in enumerate(bs))
        if want != bs:
            m = {b: w for b, w in zip(bs, want)}
            memo = {}
            args2 = tuple(_rename(a, m, memo) for a in args[1:])
            n2 = 1 + max([a.lev for a in args2], default=0)
            if n2 != n:      # renormalisation changed the depth: rename once more
                want2 = tuple(Var("%s%d" % ("\u03b2" if j == 0 else "\u03b9", n2), b.sort) for j, b in enumerate(bs))
                memo = {}
                m = {b: w for b, w in zip(want, want2)}
                args2 = tuple(_rename(a, m, memo) for a in args2)
                want = want2
            args = (args[0],) + args2
            data = (want,) + tuple(data[1:])
    key = (op, tuple(a.uid for a in args), sort, data)
    t = _table.get(key)
    if t is not None:
        return t
    t = Term.__new__(Term)
    t.op, t.args, t.sort, t.data = op, args, sort, data
    t.uid = next(_uid)
    t._h = hash(t.uid)
    t.lev = max([a.lev for a in args], default=0)
    if op in BINDERS: t.lev = max(args[0].lev, int(data[0][0].data[1:]))
    if op == "Var":
        t.fv = frozenset([t])
    elif op in BINDERS:
        bound = frozenset(data[0])
        fv = args[0].fv
        for a in args[1:]:
            fv = fv | (a.fv - bound)
        t.fv = fv
    else:
        fv = frozenset()
        for a in args:
            if a.fv:
                fv = fv | a.fv if fv else a.fv
        t.fv = fv
    _table[key] = t
    return t


_AS_IS = frozenset(("Not", "NonEmpty", "MHas", "MGet", "SKeys", "SMem", "Fld", "Proj", "MkRec", "MkTup", "Ite", "SLit", "SCat", "InRe", "App", "IsSome",
                    "TheSome", "Some", "SLen", "MOf", "SetOf", "SOfSet", "SOrdU", "SRev", "StrOp")) | BINDERS


def _rename(t, m, memo):
    """free variables of t by other variables of a level above all of t's binders; what was normal stays normal"""
    if not t.fv or not any(v in m for v in t.fv): return t
    r = memo.get(t)
    if r is not None: return r
    if t.op == "Var":
        r = m.get(t, t)
    elif t.op in BINDERS and any(v in m for v in t.data[0]):
        r = _subst(t, m, {})
    else:
        args = [_rename(a, m, memo) for a in t.args]
        if t.op in _AS_IS: r = mk(t.op, args, t.sort, t.data)
        elif t.op in ("And", "Or"): r = mk(t.op, sorted(args, key=lambda a: a.uid), t.sort, t.data)
        else: r = rebuild(t, args, t.data)
    memo[t] = r
    return r


_fresh = itertools.count(1)


def Var(name, sort):
    return mk("Var", (), sort, name)


def fresh(prefix, sort):
    return Var("%s!%d" % (prefix, next(_fresh)), sort)


# ------------------------------------------------------------------ constants
TRUE = mk("Const", (), BOOL, ("b", True))
FALSE = mk("Const", (), BOOL, ("b", False))
NONE_T = mk("Const", (), NONE, ("n", None))


def B(b): return TRUE if b else FALSE
def I(n): return mk("Const", (), INT, ("i", int(n)))
def S(s): return mk("Const", (), STR, ("s", s))


def is_const(t): return t.op == "Const"
def cval(t): return t.data[1]


# ------------------------------------------------------------------ booleans
def Not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "Not": return a.args[0]
    if a.op == "Ite" and a.sort == BOOL:
        return Ite(a.args[0], Not(a.args[1]), Not(a.args[2]))
    return mk("Not", (a,), BOOL)


def And(*xs):
    out, seen = [], set()
    stack = list(reversed(_flat(xs)))
    while stack:
        x = stack.pop()
        if x is TRUE or x in seen: continue
        if x is FALSE: return FALSE
        if x.op == "And":
            stack.extend(reversed(x.args)); continue
        seen.add(x)
        out.append(x)
    for x in out:
        if Not(x) in seen: return FALSE
    # a key of a map, an element of a sequence: it is not empty
    if any(x.op == "NonEmpty" for x in out):
        ms = {x.args[0] for x in out if x.op in ("MHas", "SMem")}
        out = [x for x in out if not (x.op == "NonEmpty" and (x.args[0] in ms or (x.args[0].op == "SKeys" and x.args[0].args[0] in ms)))]
    # unit propagation into disjunctions
    if any(x.op == "Or" for x in out):
        new, changed = [], False
        for x in out:
            if x.op == "Or":
                lits = []
                sat = False
                for l in x.args:
                    if l in seen: sat = True; break
                    if Not(l) in seen: continue
                    lits.append(l)
                if sat: changed = True; continue
                if len(lits) != len(x.args):
                    changed = True
                    new.append(Or(*lits)); continue
            new.append(x)
        if changed: return And(*new)
    if len(out) > 1:
        # what one conjunct says need not be asked again inside another
        known = {}
        for x in out:
            a = x.args[0] if x.op == "Not" else x
            if a.op in _ATOMS: known[a] = FALSE if x.op == "Not" else TRUE
        if known:
            new, changed = [], False
            for x in out:
                a = x.args[0] if x.op == "Not" else x
                if a.op not in _ATOMS or a.op in ("Ex", "Dup"):
                    for k in known:
                        if k is not a and k in batoms(x):
                            x = replace(x, k, known[k]); changed = True
                new.append(x)
            if changed: return And(*new)
    if not out: return TRUE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.uid)
    return mk("And", out, BOOL)


_ATOMS = frozenset(("NonEmpty", "MHas", "SMem", "InRe", "IsSome", "Ex", "Dup", "Eq", "App", "MGet", "Fld", "Var", "JIs"))
_BATOMS: dict = {}


def batoms(t):
    """the atoms that occur strictly inside a term"""
    r = _BATOMS.get(t)
    if r is None:
        r = frozenset()
        for a in t.args:
            if a.args: r = r | batoms(a)
            if a.sort == BOOL and a.op in _ATOMS: r = r | {a}
        _BATOMS[t] = r
    return r


def Or(*xs):
    out, seen = [], set()
    stack = list(reversed(_flat(xs)))
    while stack:
        x = stack.pop()
        if x is FALSE or x in seen: continue
        if x is TRUE: return TRUE
        if x.op == "Or":
            stack.extend(reversed(x.args)); continue
        seen.add(x)
        out.append(x)
    for x in out:
        if Not(x) in seen: return TRUE
    if any(x.op == "And" for x in out):
        new, changed = [], False
        for x in out:
            if x.op == "And":
                if any(l in seen for l in x.args):      # absorption
                    changed = True; continue
                lits = [l for l in x.args if Not(l) not in seen]
                if len(lits) != len(x.args):
                    changed = True
                    new.append(And(*lits)); continue
            new.append(x)
        if changed: return Or(*new)
    # common factor:  (A&B)|(A&~B) = A
    if len(out) == 2 and out[0].op == "And" and out[1].op == "And":
        a, b = set(out[0].args), set(out[1].args)
        common = [l for l in out[0].args if l in b]
        if common:
            ra = [l for l in out[0].args if l not in b]
            rb = [l for l in out[1].args if l not in a]
            if len(common) >= 1 and (len(ra) <= 2 or len(rb) <= 2):
                inner = Or(And(*ra), And(*rb))
                return And(*common, inner)
    if not out: return FALSE
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.uid)
    return mk("Or", out, BOOL)


def _flat(xs):
    r = []
    for x in xs:
        if isinstance(x, (list, tuple)): r.extend(x)
        else: r.append(x)
    return r


def Implies(a, b): return Or(Not(a), b)


def missed(t):
    """what a lookup gives for an absent key: evaluation raises KeyError before it comes to that"""
    while t.op in ("Fld", "Proj"): t = t.args[0]
    return t.op == "Undef" and t.data == "lookup"


def Ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if b.op in ("Undef", "Fld", "Proj") and missed(b): return a
    if a.op in ("Undef", "Fld", "Proj") and missed(a): return b
    if a is b: return a
    assert a.sort == b.sort, (a.sort, b.sort, a, b)
    if c.op == "Not": return Ite(c.args[0], b, a)
    if a.op == "Ite" and a.args[0] is c: a = a.args[1]
    if b.op == "Ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if a.sort == BOOL:
        if a is TRUE: return Or(c, b)
        if a is FALSE: return And(Not(c), b)
        if b is TRUE: return Or(Not(c), a)
        if b is FALSE: return And(c, a)
        if a is c: return Or(c, b)
        if b is c: return And(c, a)
    # factor common prefix of concatenations:  ite(c, s++x, s++y) = s ++ ite(c,x,y)
    if isinstance(a.sort, tuple) and a.sort[0] == "Seq":
        pa, pb = _cat_parts(a), _cat_parts(b)
        k = 0
        while k < len(pa) and k < len(pb) and pa[k] is pb[k]: k += 1
        if k:
            return SCat(a.sort[1], *pa[:k], Ite(c, SCat(a.sort[1], *pa[k:]), SCat(a.sort[1], *pb[k:])))
    if a.op in ("SetOf", "MOf") and b.op == a.op:
        return mk1(a.op, Ite(c, a.args[0], b.args[0]), a.sort)
    if a.op == "Ite" and a.args[2] is b:        # ite(c, ite(d,x,b), b) = ite(c&d, x, b)
        return Ite(And(c, a.args[0]), a.args[1], b)
    if b.op == "Ite" and b.args[1] is a:        # ite(c, a, ite(d,a,y)) = ite(c|d, a, y)
        return Ite(Or(c, b.args[0]), a, b.args[2])
    if a.op == "Ite" and a.args[1] is b:        # ite(c, ite(d,b,y), b) = ite(c&!d, y, b)
        return Ite(And(c, Not(a.args[0])), a.args[2], b)
    if b.op == "Ite" and b.args[2] is a:        # ite(c, a, ite(d,x,a)) = ite(!c&d, x, a)
        return Ite(And(Not(c), b.args[0]), b.args[1], a)
    if c.op == "Or" and a.sort != BOOL: return Ite(And(*[Not(x) for x in c.args]), b, a)
    return mk("Ite", (c, a, b), a.sort)


def mk1(op, a, sort):
    if op == "SetOf": return SetOf(a)
    if op == "MOf": return MOf(a)
    return mk(op, (a,), sort)


def _cat_parts(t):
    if t.op == "SCat": return list(t.args)
    if t.op == "SLit":
        return [mk("SLit", (x,), t.sort) for x in t.args]
    return [t]


def Eq(a, b):
    if a is b: return TRUE
    if a.sort != b.sort:
        # J against other sorts
        if a.sort == J and b.sort in (STR, BOOL, INT, NONE): return Eq(a, ToJ(b))
        if b.sort == J and a.sort in (STR, BOOL, INT, NONE): return Eq(ToJ(a), b)
        if a.sort == INT and b.sort == BOOL: return Eq(a, Ite(b, I(1), I(0)))
        if a.sort == BOOL and b.sort == INT: return Eq(Ite(a, I(1), I(0)), b)
        return FALSE
    if is_const(a) and is_const(b):
        return B(a.data == b.data)
    if a.sort == NONE: return TRUE
    if a.sort == BOOL:
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return Not(b)
        if b is FALSE: return Not(a)
        if Not(a) is b: return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "Ite" and is_const(y) and (is_const(x.args[1]) or is_const(x.args[2])):
            return Ite(x.args[0], Eq(x.args[1], y), Eq(x.args[2], y))
    if a.op == "MkTup" and b.op == "MkTup":
        return And(*[Eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == "MkRec" and b.op == "MkRec":
        return And(*[Eq(x, y) for x, y in zip(a.args, b.args)])
    for x, y in ((a, b), (b, a)):
        if x.op == "MkTup":
            return And(*[Eq(e, Proj(i, y)) for i, e in enumerate(x.args)])
    for x, y in ((a, b), (b, a)):
        if x.op == "MkRec" and x.data[0] in REC_FIELDS:
            return And(*[Eq(e, Fld(x.data[0], f, y)) for (f, _), e in zip(REC_FIELDS[x.data[0]], x.args)])
    for x, y in ((a, b), (b, a)):
        if x.op == "SLen" and is_const(y) and cval(y) == 0: return Not(NonEmpty(x.args[0]))
        if (d := as_many_different(x, y)) is not None: return d
        if x.op == "Some" and y.op != "Some": return And(IsSome(y), Eq(x.args[0], TheSome(y)))
        if x.op == "NoneOf": return Not(IsSome(y))
    for x, y in ((a, b), (b, a)):
        # positions are below sys.maxsize
        if is_const(y) and y.sort == INT and cval(y) == sys.maxsize:
            if x.op == "SIdx": return FALSE
            if x.op == "MinOf" and x.args[3] is y and x.args[2].op == "SIdx": return Not(Ex(x.data[0][0], None, x.args[0], x.args[1]))
    if a.op == "HashOf" and b.op == "HashOf":
        return Eq(a.args[0], b.args[0])
    if isinstance(a.sort, tuple) and a.sort[0] == "Seq":
        for x, y in ((a, b), (b, a)):
            if x.op == "SLit" and not x.args: return Not(NonEmpty(y))
        if a.op == "SLit" and b.op == "SLit":
            if len(a.args) != len(b.args): return FALSE
            return And(*[Eq(x, y) for x, y in zip(a.args, b.args)])
    if a.uid > b.uid: a, b = b, a
    return mk("Eq", (a, b), BOOL)


# ------------------------------------------------------------------ ints
def Add(*xs):
    xs = _flat(xs)
    c, out = 0, []
    for x in xs:
        if x.op == "Add":
            for y in x.args:
                if is_const(y): c += cval(y)
                else: out.append(y)
        elif is_const(x): c += cval(x)
        else: out.append(x)
    if c or not out: out.append(I(c))
    if len(out) == 1: return out[0]
    out.sort(key=lambda t: t.uid)
    return mk("Add", out, INT)


def Neg(x):
    if is_const(x): return I(-cval(x))
    return mk("Neg", (x,), INT)


def Sub(a, b): return Add(a, Neg(b))


def Mul(a, b):
    if is_const(a) and is_const(b): return I(cval(a) * cval(b))
    return mk("Mul", (a, b), INT)


def as_many_different(a, b):
    """len(set(xs)) = len(xs), where a is len(set(xs)) and b is len(xs)"""
    if a.op == "SLen" and a.args[0].op == "SOfSet" and a.args[0].args[0].op == "SetOf":
        xs = a.args[0].args[0].args[0]
        if SLen(xs) is b:
            x = fresh("x", xs.sort[1])
            return Not(Dup(x, xs, x))


def Lt(a, b):
    if a.sort == BOOL: a = Ite(a, I(1), I(0))
    if b.sort == BOOL: b = Ite(b, I(1), I(0))
    if a is b: return FALSE
    if is_const(a) and is_const(b): return B(cval(a) < cval(b))
    if a.op == "SLen" and is_const(b) and cval(b) <= 1:
        return Not(NonEmpty(a.args[0])) if cval(b) == 1 else FALSE
    if b.op == "SLen" and is_const(a) and cval(a) <= 0: return NonEmpty(b.args[0]) if cval(a) == 0 else TRUE
    if (d := as_many_different(a, b)) is not None: return Not(d)
    if as_many_different(b, a) is not None: return FALSE
    if a.sort == STR: return mk("StrLt", (a, b), BOOL)
    if isinstance(a.sort, tuple) and a.sort[0] == "Tup":
        r = FALSE
        n = len(a.sort[1])
        for i in reversed(range(n)):
            x, y = Proj(i, a), Proj(i, b)
            r = Or(Lt(x, y), And(Eq(x, y), r))
        return r
    if isinstance(a.sort, tuple) and a.sort[0] == "Seq":
        return mk("SeqLt", (a, b), BOOL)
    assert a.sort == INT and b.sort == INT, (a.sort, b.sort)
    # len(s) comparisons against constants 0 / 1 become emptiness
    if is_const(a) and cval(a) == 0 and b.op == "SLen": return NonEmpty(b.args[0])
    if is_const(b) and cval(b) == 1 and a.op == "SLen": return Not(NonEmpty(a.args[0]))
    if is_const(b) and cval(b) <= 0 and a.op == "SLen": return FALSE
    return mk("Lt", (a, b), BOOL)


def Le(a, b):
    if is_const(a) and is_const(b): return B(cval(a) <= cval(b))
    return Not(Lt(b, a))


# ------------------------------------------------------------------ strings
def StrCat(*xs):
    out = []
    for x in _flat(xs):
        if x.op == "StrCat": parts = x.args
        else: parts = (x,)
        for p in parts:
            if is_const(p) and p.data[1] == "": continue
            if out and is_const(p) and is_const(out[-1]):
                out[-1] = S(cval(out[-1]) + cval(p))
            else: out.append(p)
    if not out: return S("")
    if len(out) == 1: return out[0]
    return mk("StrCat", out, STR)


STROPS: dict = {}   # name -> python function used by the evaluator


def StrOp(name, *args, sort=STR):
    if all(is_const(a) for a in args) and name in STROPS:
        try: v = STROPS[name](*[cval(a) for a in args])
        except (IndexError, Undefined): v = None           # a dead branch
        if isinstance(v, bool): return B(v)
        if isinstance(v, int): return I(v)
        if isinstance(v, str): return S(v)
        if isinstance(v, tuple) and sort == Seq(STR): return SLit(STR, *[S(x) for x in v])
    if name.startswith("grp:"): return STROP_HOOK(name, *args)
    return mk("StrOp", args, sort, name)


def InRe(key, s):
    if is_const(s):
        return B(REGEX_EVAL(key, cval(s)))
    if INRE_HOOK is not None:
        r = INRE_HOOK(key, s)
        if r is not None: return r
    return mk("InRe", (s,), BOOL, key)


INRE_HOOK = None
STROP_HOOK = None


def REGEX_EVAL(key, s):
    raise IRError("regex evaluation not installed")


# ------------------------------------------------------------------ tuples / records
def MkTup(*xs):
    xs = _flat(xs)
    # eta
    if xs and all(x.op == "Proj" and x.data == i and x.args[0] is xs[0].args[0] for i, x in enumerate(xs)) \
       and len(xs[0].args[0].sort[1]) == len(xs):
        return xs[0].args[0]
    return mk("MkTup", xs, Tup(*[x.sort for x in xs]))


def Proj(i, t):
    if t.op == "MkTup": return t.args[i]
    if t.op == "Ite": return Ite(t.args[0], Proj(i, t.args[1]), Proj(i, t.args[2]))
    return mk("Proj", (t,), t.sort[1][i], i)


REC_FIELDS: dict = {}   # cls -> [(field, sort)]


def MkRec(cls, *xs):
    xs = _flat(xs)
    if xs and all(x.op == "Fld" and x.data == (cls, f) and x.args[0] is xs[0].args[0]
                  for (f, _), x in zip(REC_FIELDS[cls], xs)):
        return xs[0].args[0]
    return mk("MkRec", xs, Rec(cls), (cls,))


def Fld(cls, f, r):
    fields = REC_FIELDS[cls]
    if r.op == "MkRec":
        for (n, _), a in zip(fields, r.args):
            if n == f: return a
    if r.op == "Ite": return Ite(r.args[0], Fld(cls, f, r.args[1]), Fld(cls, f, r.args[2]))
    return mk("Fld", (r,), dict(fields)[f], (cls, f))


def HashOf(x):
    return mk("HashOf", (x,), INT)


def App(name, sort, *args):
    """Application of a named spec function (uninterpreted; evaluated through APPS)."""
    return mk("App", args, sort, name)


APPS: dict = {}


# ------------------------------------------------------------------ sequences
def SEmpty(es): return mk("SLit", (), Seq(es))
def SLit(es, *xs): return mk("SLit", _flat(xs), Seq(es))


def SCat(es, *xs):
    out = []
    for x in _flat(xs):
        if x.op == "SCat": parts = x.args
        else: parts = (x,)
        for p in parts:
            if p.op == "SLit" and not p.args: continue
            if out and p.op == "SLit" and out[-1].op == "SLit":
                out[-1] = SLit(es, *out[-1].args, *p.args)
            else: out.append(p)
    if not out: return SEmpty(es)
    if len(out) == 1: return out[0]
    return mk("SCat", out, Seq(es))


def subst(t, m):
    """Capture-avoiding simultaneous substitution {Var: Term}, re-normalising."""
    m = {k: v for k, v in m.items() if k is not v}
    if not m: return t
    memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if not t.fv or not any(v in m for v in t.fv): return t
    r = memo.get(t)
    if r is not None: return r
    if t.op == "Var":
        r = m.get(t, t)
    elif t.op in BINDERS:
        bound = t.data[0]
        src = _subst(t.args[0], m, memo)
        m2 = {k: v for k, v in m.items() if k not in bound}
        inner_hit = any(v in m2 for a in t.args[1:] for v in a.fv if v not in bound)
        if not inner_hit and src is t.args[0]:
            r = t
        else:
            ren = {b: fresh("v", b.sort) for b in bound}
            m3 = dict(m2); m3.update(ren)
            nb = tuple(ren[b] for b in bound)
            memo2 = {}
            rest = [_subst(a, m3, memo2) for a in t.args[1:]]
            r = rebuild(t, [src] + rest, (nb,) + tuple(t.data[1:]))
    else:
        r = rebuild(t, [_subst(a, m, memo) for a in t.args], t.data)
    memo[t] = r
    return r


def replace(t, old, new, memo=None):
    if memo is None: memo = {}
    if t is old: return new
    r = memo.get(t)
    if r is not None: return r
    if not t.args: return t
    args = [replace(a, old, new, memo) for a in t.args]
    r = t if all(a is b for a, b in zip(args, t.args)) else rebuild(t, args, t.data)
    memo[t] = r
    return r


def rebuild(t, args, data):
    op = t.op
    f = _REBUILD.get(op)
    if f: return f(t, args, data)
    return mk(op, args, t.sort, data)


def _own_key(src, x, t):
    """what is said of x, which runs over the keys of a map, need not say that the map has x"""
    mem = mk("MHas", (src.args[0], x), BOOL)
    m = src.args[0]
    while m.op == "MGet": m = m.args[0]
    if m.op != "Var" or mem not in subterms(t): return t
    return replace(t, mem, TRUE)


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u in seen: continue
        seen.add(u); todo.extend(u.args)
    return seen


def SComp(x, i, src, inner):
    """concat over x in src (i = index var, may be None) of inner (a Seq)"""
    es = inner.sort[1]
    if src.op == "SKeys": inner = _own_key(src, x, inner)
    if i is not None and i not in inner.fv: i = None
    if inner.op == "SLit" and not inner.args: return SEmpty(es)
    if src.op == "SLit":
        if i is None:
            return SCat(es, *[subst(inner, {x: v}) for v in src.args])
        return SCat(es, *[subst(inner, {x: v, i: I(n)}) for n, v in enumerate(src.args)])
    if i is None:
        if inner.op == "SLit" and len(inner.args) == 1 and inner.args[0] is x:
            return src
        if src.op == "SCat":
            return SCat(es, *[SComp(x, None, p, inner) for p in src.args])
        if src.op == "Ite":
            return Ite(src.args[0], SComp(x, None, src.args[1], inner), SComp(x, None, src.args[2], inner))
        if src.op == "SComp":
            (y, j), = [src.data[0]] if len(src.data[0]) == 2 else [(src.data[0][0], None)]
            # fuse; the inner comprehension runs over src's own inner sequence
            y2 = fresh(y.data.split("!")[0], y.sort)
            j2 = fresh("i", INT) if j is not None else None
            inn = subst(src.args[1], {y: y2, **({j: j2} if j is not None else {})})
            return SComp(y2, j2, src.args[0], SComp(x, None, inn, inner))
    else:
        # dedup pattern: keep x unless an earlier y has the same key
        d = _match_dedup(x, i, src, inner)
        if d is not None: return d
    if i is None and src.op == "SRange" and src.args[0].op == "SLen" and x not in inner.fv:
        # as many times as there are items
        s0 = src.args[0].args[0]
        return SComp(fresh("y", s0.sort[1]), None, s0, inner)
    # pull out a guard that does not depend on the binder
    if inner.op == "Ite" and not (inner.args[0].fv & ({x, i} if i is not None else {x})):
        return Ite(inner.args[0], SComp(x, i, src, inner.args[1]), SComp(x, i, src, inner.args[2]))
    if i is None and src.op == "GroupOf": return SComp(x, None, group_items(src), inner)
    if i is None and src.op == "SDedup" and src.args[1] is src.data[0][0]:
        r = _sorted_groups(x, src.args[0], inner)
        if r is not None: return r
    if i is None and (src.op == "SKeys" or (src.op == "SDedup" and src.args[1] is src.data[0][0])) and inner.op == "Ite":
        # the elements are distinct: at most one of them is e
        for k, (c, body, other) in enumerate(((inner.args[0], inner.args[1], inner.args[2]), (Not(inner.args[0]), inner.args[2], inner.args[1]))):
            if not (other.op == "SLit" and not other.args): continue
            for l in (c.args if c.op == "And" else (c,)):
                if l.op != "Eq": continue
                for a, e in (l.args, l.args[::-1]):
                    if a is x and x not in e.fv:
                        return Ite(And(SMem(src, e), subst(c, {x: e})), subst(body, {x: e}), SEmpty(es))
    b = (x,) if i is None else (x, i)
    return mk("SComp", (src, inner), inner.sort, (b,))


def prev_key(x, i, src, c):
    """c says: an earlier element of src has the same key as x (at index i); the key, or None"""
    if c.op == "SMem":
        if c.args[0] is SPrefix(src, i) and c.args[1] is x: return x
        return None
    if c.op != "Ex": return None
    if c.args[0] is not SPrefix(src, i): return None
    y = c.data[0][0]
    if len(c.data[0]) > 1: return None
    body = c.args[1]
    ks = []
    for l in (body.args if body.op == "And" else (body,)):
        if l.op != "Eq": return None
        for p, q in (l.args, l.args[::-1]):
            if x not in p.fv and y not in q.fv and i not in p.fv | q.fv and y in p.fv and subst(p, {y: x}) is q:
                ks.append(q); break
        else: return None
    return ks[0] if len(ks) == 1 else MkTup(*ks)


def _match_dedup(x, i, src, inner):
    # Ite(an earlier element has the same key, [], [x])
    if inner.op != "Ite": return None
    c, a, b = inner.args
    if a.op == "SLit" and not a.args and b.op == "SLit" and b.args == (x,): pass
    elif b.op == "SLit" and not b.args and a.op == "SLit" and a.args == (x,): c = Not(c)
    else: return None
    k = prev_key(x, i, src, c)
    return None if k is None else SDedup(x, src, k)


def Dup(x, src, key):
    """two elements of src (at different positions) have the same key"""
    if x not in key.fv: return Lt(I(1), SLen(src))
    if key.op == "MkTup":
        ks = []
        for k in key.args:
            for kk in (k.args if k.op == "MkTup" else (k,)):
                if kk not in ks and x in kk.fv: ks.append(kk)
        if isinstance(x.sort, tuple) and x.sort[0] == "Rec":
            fl = [Fld(x.sort[1], f, x) for f, _ in REC_FIELDS[x.sort[1]]]
            if set(ks) == set(fl): return Dup(x, src, x)
        ks.sort(key=lambda t: show(t))
        key = ks[0] if len(ks) == 1 else MkTup(*ks)
    elif key is not x and key is natkey(x): key = x
    if src.op == "SLit":
        vs = [subst(key, {x: v}) for v in src.args]
        return Or(*[Eq(a, b) for n, a in enumerate(vs) for b in vs[:n]])
    if src.op in ("SSort", "SRev"): return Dup(x, src.args[0], key)
    if src.op == "Ite": return Ite(src.args[0], Dup(x, src.args[1], key), Dup(x, src.args[2], key))
    if src.op == "SDedup" and subst(src.args[1], {src.data[0][0]: x}) is key: return FALSE
    if src.op in ("SKeys", "SOfSet", "SRange") and key is x: return FALSE
    if src.op == "SComp" and len(src.data[0]) == 1 and src.args[1].op == "SLit" and len(src.args[1].args) == 1:
        y = fresh("d", src.data[0][0].sort)
        return Dup(y, src.args[0], subst(key, {x: subst(src.args[1].args[0], {src.data[0][0]: y})}))
    return mk("Dup", (src, key), BOOL, ((x,),))


NTH_ALIAS: dict = {}      # (sequence, index variable) -> the loop element at that index


def smap(src, f):
    x = fresh("x", src.sort[1])
    v = f(x)
    return SComp(x, None, src, SLit(v.sort, v))


def sfilter(src, p):
    x = fresh("x", src.sort[1])
    return SComp(x, None, src, Ite(p(x), SLit(x.sort, x), SEmpty(x.sort)))


def SPrefix(src, i):
    if is_const(i) and cval(i) == 0: return SEmpty(src.sort[1])
    if src.op == "SComp" and len(src.data[0]) == 1 and src.args[1].op == "SLit" and len(src.args[1].args) == 1:
        return SComp(src.data[0][0], None, SPrefix(src.args[0], i), src.args[1])
    if src.op == "SLit" and is_const(i) and cval(i) >= 0:
        return SLit(src.sort[1], *src.args[:cval(i)])
    return mk("SPrefix", (src, i), src.sort)


def SSuffix(src, i):
    if is_const(i) and cval(i) == 0: return src
    if src.op == "SLit" and is_const(i) and cval(i) >= 0:
        return SLit(src.sort[1], *src.args[cval(i):])
    if src.op == "SCat" and is_const(i) and cval(i) > 0 and src.args[0].op == "SLit":
        n = len(src.args[0].args)
        k = cval(i)
        if k <= n:
            return SCat(src.sort[1], SLit(src.sort[1], *src.args[0].args[k:]), *src.args[1:])
    return mk("SSuffix", (src, i), src.sort)


def SNth(s, i):
    if is_const(i):
        n = cval(i)
        if s.op == "SLit" and 0 <= n < len(s.args): return s.args[n]
        if s.op == "SCat" and s.args[0].op == "SLit" and 0 <= n < len(s.args[0].args):
            return s.args[0].args[n]
    if i.op == "SIdx" and i.args[0] is s: return i.args[1]      # a position that only exists when the item is there
    if s.op == "Ite": return Ite(s.args[0], SNth(s.args[1], i), SNth(s.args[2], i))
    if s.op == "SComp" and len(s.data[0]) == 1 and s.args[1].op == "SLit" and len(s.args[1].args) == 1:
        return subst(s.args[1].args[0], {s.data[0][0]: SNth(s.args[0], i)})
    if i.op == "Var":
        a = NTH_ALIAS.get((s, i))
        if a is not None: return a
    if s.op == "SRange" : return i
    return mk("SNth", (s, i), s.sort[1])


LEN_OF = {}      # lists under a loop that never changes their length


def SLen(s):
    if s in LEN_OF: return LEN_OF[s]
    if s.op == "SLit": return I(len(s.args))
    if s.op == "SCat": return Add(*[SLen(a) for a in s.args])
    if s.op == "Ite": return Ite(s.args[0], SLen(s.args[1]), SLen(s.args[2]))
    if s.op in ("SSort", "SRev"): return SLen(s.args[0])
    if s.op == "SUpd": return SLen(s.args[0])
    if s.op == "SRange": return s.args[0]
    if s.op == "SComp":
        inner = s.args[1]
        if inner.op == "SLit":   # pure map
            return Mul2(SLen(s.args[0]), len(inner.args))
        if inner.op == "Ite":    # only how many there are matters
            x = s.data[0][0]
            same = _as_many(inner, x)
            if same is not None and same is not inner: return SLen(SComp(x, s.data[0][1] if len(s.data[0]) > 1 else None, s.args[0], same))
    return mk("SLen", (s,), INT)


def _as_many(t, x):
    if t.op == "SLit": return SLit(x.sort, *[x] * len(t.args))
    if t.op != "Ite": return None
    a, b = _as_many(t.args[1], x), _as_many(t.args[2], x)
    return None if a is None or b is None else Ite(t.args[0], a, b)


def Mul2(t, n):
    if n == 1: return t
    return Mul(t, I(n))


def NonEmpty(s):
    if s.op == "SFoldU": return NonEmpty(flat(s.args[0]))
    if s.op == "GroupOf": return NonEmpty(group_items(s))
    if s.op == "SLit": return B(bool(s.args))
    if s.op == "SCat": return Or(*[NonEmpty(a) for a in s.args])
    if s.op == "Ite": return Ite(s.args[0], NonEmpty(s.args[1]), NonEmpty(s.args[2]))
    if s.op in ("SSort", "SRev", "SDedup", "SUpd"): return NonEmpty(s.args[0])
    if s.op == "SComp":
        b = s.data[0]
        return Ex(b[0], b[1] if len(b) > 1 else None, s.args[0], NonEmpty(s.args[1]))
    if s.op == "SKeys" and s.args[0].op == "MOf":
        return NonEmpty(s.args[0].args[0])
    if s.op == "SOfSet" and s.args[0].op == "SetOf":
        return NonEmpty(s.args[0].args[0])
    return mk("NonEmpty", (s,), BOOL)


def Ex(x, i, src, p):
    """exists x in src (at index i): p"""
    if i is not None and i not in p.fv: i = None
    if src.op == "SKeys": p = _own_key(src, x, p)
    if p is FALSE: return FALSE
    bound = {x, i} if i is not None else {x}
    if not (p.fv & bound):
        return And(NonEmpty(src), p)
    if src.op == "SLit":
        if i is None: return Or(*[subst(p, {x: v}) for v in src.args])
        return Or(*[subst(p, {x: v, i: I(n)}) for n, v in enumerate(src.args)])
    if p.op == "Or":
        return Or(*[Ex(x, i, src, q) for q in p.args])
    if i is not None:
        k = prev_key(x, i, src, p)
        if k is not None: return Dup(x, src, k)
    if src.op == "SRange" and src.args[0].op == "SLen" and i is None:
        s = src.args[0].args[0]
        y = fresh("y", s.sort[1])
        old = NTH_ALIAS.get((s, x))
        NTH_ALIAS[(s, x)] = y
        try: p2 = _renth(p, {})
        finally:
            if old is None: del NTH_ALIAS[(s, x)]
            else: NTH_ALIAS[(s, x)] = old
        return Ex(y, x, s, p2)
    if p.op == "And":
        ins, outs = [], []
        for q in p.args: (ins if q.fv & bound else outs).append(q)
        if outs:
            return And(*outs, Ex(x, i, src, And(*ins)))
    if p.op == "Ite" and p.sort == BOOL:
        c, a, b = p.args
        return Or(Ex(x, i, src, And(c, a)), Ex(x, i, src, And(Not(c), b)))
    if i is None:
        if src.op == "SCat": return Or(*[Ex(x, None, a, p) for a in src.args])
        if src.op == "Ite":
            return Ite(src.args[0], Ex(x, None, src.args[1], p), Ex(x, None, src.args[2], p))
        if src.op == "SComp":
            b = src.data[0]
            y = fresh(b[0].data.split("!")[0], b[0].sort)
            j = fresh("i", INT) if len(b) > 1 else None
            inn = subst(src.args[1], {b[0]: y, **({b[1]: j} if j is not None else {})})
            return Ex(y, j, src.args[0], Ex(x, None, inn, p))
        if src.op in ("SSort", "SRev"): return Ex(x, None, src.args[0], p)
        if src.op == "SDedup" and src.args[1] is src.data[0][0]:
            return Ex(x, None, src.args[0], p)
        if src.op == "SOfSet" and src.args[0].op == "SetOf":
            return Ex(x, None, src.args[0].args[0], p)
        if src.op == "SPrefix" and src.args[0].op == "SComp" and False:
            pass
        # one-point rule
        lits = p.args if p.op == "And" else (p,)
        for l in lits:
            if l.op == "Eq":
                for a, b in (l.args, l.args[::-1]):
                    if a is x and x not in b.fv:
                        rest = And(*[subst(q, {x: b}) for q in lits if q is not l])
                        return And(SMem(src, b), rest)
        e = forced(p, x)
        if e is not None: return And(SMem(src, e), subst(p, {x: e}))
        if isinstance(x.sort, tuple) and x.sort[0] == "Rec" and p.op == "And":
            # a record put together from x and from values equal to x's fields is x
            eqs = {}
            for l in lits:
                if l.op == "Eq":
                    for a, b in (l.args, l.args[::-1]):
                        if a.op == "Fld" and a.args[0] is x: eqs[(a.data[1], b)] = True
            if eqs:
                found = {}
                for l in lits: _whole(l, x, eqs, found, set())
                if found:
                    new = []
                    for l in lits:
                        if l.op != "Eq":
                            for k in found: l = replace(l, k, x)
                        new.append(l)
                    return Ex(x, i, src, And(*new))
        if isinstance(x.sort, tuple) and x.sort[0] == "Rec":
            # the same for a record all of whose fields are given
            got, used = {}, []
            for l in lits:
                if l.op == "Eq":
                    for a, b in (l.args, l.args[::-1]):
                        if a.op == "Fld" and a.args[0] is x and x not in b.fv and a.data[1] not in got:
                            got[a.data[1]] = b; used.append(l); break
                elif (fv := _given_field(l, x)) is not None and fv[0] not in got:
                    got[fv[0]] = fv[1]; used.append(l)
            if len(got) == len(REC_FIELDS[x.sort[1]]):
                b = MkRec(x.sort[1], *[got[f] for f, _ in REC_FIELDS[x.sort[1]]])
                return And(SMem(src, b), *[subst(q, {x: b}) for q in lits if q not in used])
    b = (x,) if i is None else (x, i)
    return mk("Ex", (src, p), BOOL, (b,))


def _given_field(l, x):
    """(field, value) when l says that a field of x is empty, None, true or false"""
    neg = l.op == "Not"
    a = l.args[0] if neg else l
    def fld(t): return t.op == "Fld" and t.args[0] is x
    if fld(a) and a.sort == BOOL: return a.data[1], FALSE if neg else TRUE
    if not neg or not a.args or not fld(a.args[0]): return None
    f = a.args[0]
    if a.op == "IsSome": return f.data[1], NoneOf(f.sort[1])
    if a.op == "NonEmpty":
        if f.sort == STR: return f.data[1], S("")
        if isinstance(f.sort, tuple) and f.sort[0] == "Seq": return f.data[1], SEmpty(f.sort[1])
    return None


def _whole(t, x, eqs, found, seen):
    if t in seen or x not in t.fv: return
    seen.add(t)
    if t.op == "MkRec" and t.sort == x.sort and x in t.fv:
        fs = [f for f, _ in REC_FIELDS[x.sort[1]]]
        if all((a.op == "Fld" and a.args[0] is x and a.data[1] == f) or (f, a) in eqs for f, a in zip(fs, t.args)): found[t] = x
    for a in t.args: _whole(a, x, eqs, found, seen)


def _renth(t, memo):
    """rebuild, so that the element at a loop index is written as the loop element"""
    r = memo.get(t)
    if r is not None: return r
    if not t.args: return t
    args = [_renth(a, memo) for a in t.args]
    r = rebuild(t, args, t.data) if t.op == "SNth" or any(a is not b for a, b in zip(args, t.args)) else t
    memo[t] = r
    return r


def All(x, i, src, p): return Not(Ex(x, i, src, Not(p)))


def SMem(s, v):
    if s.op == "GroupOf": return SMem(group_items(s), v)
    if s.op == "SFoldU": return SMem(flat(s.args[0]), v)
    if s.op in ("SLit", "SCat", "SComp", "Ite", "SSort", "SRev") or \
       (s.op == "SOfSet" and s.args[0].op == "SetOf") or \
       (s.op == "SDedup" and s.args[1] is s.data[0][0]):
        x = fresh("m", s.sort[1])
        if s.op == "SLit": return Or(*[Eq(v, a) for a in s.args])
        if s.op == "SCat": return Or(*[SMem(a, v) for a in s.args])
        if s.op == "Ite": return Ite(s.args[0], SMem(s.args[1], v), SMem(s.args[2], v))
        if s.op in ("SSort", "SRev", "SDedup"): return SMem(s.args[0], v)
        if s.op == "SOfSet": return SMem(s.args[0].args[0], v)
        b = s.data[0]
        y = fresh(b[0].data.split("!")[0], b[0].sort)
        j = fresh("i", INT) if len(b) > 1 else None
        inn = subst(s.args[1], {b[0]: y, **({b[1]: j} if j is not None else {})})
        return Ex(y, j, s.args[0], SMem(inn, v))
    if s.op == "SKeys" and s.args[0].op in ("MOf", "MGroup"):
        return MHas(s.args[0], v)
    if s.op == "SKeys": return MHas(s.args[0], v)
    if v.sort != s.sort[1]:
        return FALSE
    if v.op == "Ite":
        return Ite(v.args[0], SMem(s, v.args[1]), SMem(s, v.args[2]))
    return mk("SMem", (s, v), BOOL)


def SIdx(s, v):
    """position of first occurrence of v in s (unspecified when absent)"""
    return mk("SIdx", (s, v), INT)


def Contig(s):
    """equal items of s stand next to each other"""
    if s.op == "SLit" and len(s.args) <= 2 or s.op in ("SKeys", "SDedup") and (s.op == "SKeys" or s.args[1] is s.data[0][0]): return TRUE
    return mk("Contig", (s,), BOOL)


def GroupOf(x, src, key, k):
    """the items of src whose key is k"""
    return mk("GroupOf", (src, key, k), src.sort, ((x,),))


def group_items(t):
    src, key, k = t.args
    x = t.data[0][0]
    y = fresh(x.data.split("!")[0], x.sort)
    return SComp(y, None, src, Ite(Eq(subst(key, {x: y}), k), SLit(x.sort, y), SEmpty(x.sort)))


def first_pos(x, src, key):
    """position of the first item of src with the key of x"""
    y = fresh(x.data.split("!")[0], x.sort)
    return SIdx(smap(src, lambda v: subst(key, {x: v})), key)


def _determines(x, key, t):
    """t is a function of key (both over x), by its form"""
    ks = list(key.args) if key.op == "MkTup" else [key]
    for n, k in enumerate(sorted(ks, key=lambda k: -size(k))):
        if k is x: return True
        t = replace(t, k, mk("Var", (), k.sort, "key!%d" % n))
    return x not in t.fv


def _sorted_groups(k, keys, inner):
    """for every key of S in order of appearance, its group sorted by g: S sorted by (appearance of the key, g)"""
    g, kk = inner, None
    if inner.op == "SSort" and not inner.data[1]:
        z, kk, g = inner.data[0][0], inner.args[1], inner.args[0]
    if g.op != "GroupOf" or g.args[2] is not k: return None
    x = g.data[0][0]
    src, key = g.args[0], g.args[1]
    if k in src.fv or k in key.fv: return None
    if keys is not smap(src, lambda v: subst(key, {x: v})): return None
    y = fresh("x", x.sort)
    ky = subst(key, {x: y})
    base, front = src, []
    if src.op == "SSort" and not src.data[1]:
        k1 = subst(src.args[1], {src.data[0][0]: y})
        if _determines(y, ky, k1):
            # the groups come in order of k1, and where k1 ties, as in the unsorted sequence
            base, front = src.args[0], [k1]
    tail = [] if kk is None else [subst(kk, {z: y, k: ky})]
    return SSort(y, base, MkTup(*front, first_pos(y, base, ky), *tail))


def SUpd(s, i, v):
    if s.op == "SLit" and is_const(i) and 0 <= cval(i) < len(s.args):
        a = list(s.args); a[cval(i)] = v
        return SLit(s.sort[1], *a)
    return mk("SUpd", (s, i, v), s.sort)


def SRange(n):
    if is_const(n) and cval(n) <= 64: return SLit(INT, *[I(k) for k in range(max(cval(n), 0))])
    return mk("SRange", (n,), Seq(INT))


def natkey(v):
    """the key by which python orders values of this sort"""
    s = v.sort
    if isinstance(s, tuple) and s[0] == "Rec":
        return MkTup(*[natkey(Fld(s[1], f, v)) for f, _ in REC_FIELDS[s[1]]])
    return v


SORTED_FIELDS: set = set()   # (cls, field): sequence known to be sorted by natural order


def SSort(x, src, key, rev=False):
    """stable sort of src by key(x)"""
    if src.op == "SLit" and len(src.args) <= 1: return src
    if not rev and x not in key.fv: return src
    if not rev and src.op == "Fld" and src.data in SORTED_FIELDS and key is natkey(x): return src
    if src.op == "SComp" and len(src.data[0]) == 1 and distinct_items(src.args[0]) and src.args[1].op == "SLit" and len(src.args[1].args) == 1:
        # sorting what is made of the items is sorting the items
        y = fresh("y", src.data[0][0].sort)
        e = subst(src.args[1], {src.data[0][0]: y})
        return SComp(y, None, SSort(y, src.args[0], subst(key, {x: e.args[0]}), rev), e)
    if key.op == "MkTup" and distinct_items(src) and x in key.args[:-1]:
        # no two items are the same
        return SSort(x, src, MkTup(*key.args[:key.args.index(x) + 1]), rev)
    if not rev and src.op == "SSort" and not src.data[1]:
        # sort(sort(xs,k1),k2) = sort(xs,(k2,k1))
        y = src.data[0][0]
        k1 = subst(src.args[1], {y: x})
        if k1 is key: return src
        ks = (list(key.args) if key.op == "MkTup" else [key]) + (list(k1.args) if k1.op == "MkTup" else [k1])
        return SSort(x, src.args[0], MkTup(*ks))
    if src.op == "SSort" and key is natkey(x) and not rev and not src.data[1]:
        return SSort(x, src.args[0], key)   # only ties of *equal* values (antisymmetric order)
    if key.op == "MkTup":
        # drop later duplicates / components constant in x, flatten nested tuples
        ks = []
        for k in key.args:
            for kk in (k.args if k.op == "MkTup" else (k,)):
                if kk in ks or x not in kk.fv: continue
                ks.append(kk)
        if not rev and not ks: return src
        key2 = MkTup(*ks) if len(ks) != 1 else ks[0]
        if key2 is not key: return SSort(x, src, key2, rev)
    return mk("SSort", (src, key), src.sort, ((x,), bool(rev)))


def SRev(s):
    if s.op == "SLit": return SLit(s.sort[1], *s.args[::-1])
    if s.op == "SRev": return s.args[0]
    return mk("SRev", (s,), s.sort)


def distinct_items(s): return s.op in ("SKeys", "SRange", "SOfSet") or s.op == "SDedup" and s.args[1] is s.data[0][0]


def distinct_keys(s, x, key):
    """every element comes from one item of distinct ones, and its key is that item"""
    base, body = s.args
    if not distinct_items(base): return False
    b = s.data[0][0]
    def leaf(t):
        if t.op == "Ite": return leaf(t.args[1]) and leaf(t.args[2])
        return t.op == "SLit" and len(t.args) <= 1 and all(subst(key, {x: a}) is b for a in t.args)
    return leaf(body)


def SDedup(x, src, key):
    """keep the elements whose key has not occurred before"""
    if src.op == "SLit" and len(src.args) <= 1: return src
    if src.op == "SDedup":
        y = src.data[0][0]
        if subst(src.args[1], {y: x}) is key: return src
    if src.op == "SKeys" and key is x: return src
    if src.op == "SComp" and distinct_keys(src, x, key): return src
    if src.op == "SFoldU" and key is x: return SDedup(x, flat(src.args[0]), key)
    if key is x:
        # dedup(a ++ b) with inner dedups: dedup(dedup(a)++b) = dedup(a++b)
        if src.op == "SCat":
            parts = []
            ch = False
            for p in src.args:
                if p.op == "SDedup" and p.args[1] is p.data[0][0]:
                    parts.append(p.args[0]); ch = True
                elif p.op == "SOrdU":
                    parts.extend(p.args); ch = True
                elif p.op == "SFoldU":
                    parts.append(flat(p.args[0])); ch = True
                else: parts.append(p)
            if ch: return SDedup(x, SCat(src.sort[1], *parts), key)
        if src.op == "SOrdU":
            return SDedup(x, SCat(src.sort[1], *src.args), key)
    if key.op == "MkTup" and len(key.args) == 1: key = key.args[0]
    if key is not x and key is natkey(x): key = x
    return mk("SDedup", (src, key), src.sort, ((x,),))


def SOrdU(a, b):
    """a followed by the items of b that are new (each once)"""
    if a.op == "Ite" and any(x.op == "SLit" and not x.args for x in a.args[1:]):
        return Ite(a.args[0], SOrdU(a.args[1], b), SOrdU(a.args[2], b))
    if b.op == "SLit" and not b.args: return a
    if a.op == "SLit" and not a.args:
        x = fresh("x", b.sort[1])
        return SDedup(x, b, x)
    return mk("SOrdU", (a, b), a.sort)


def flat(q):
    y = fresh("q", q.sort[1])
    return SComp(y, None, q, y)


def SFoldU(q):
    """fold over the sequences of q: extend while the result is empty, add the new items afterwards"""
    if q.op == "SLit" and not q.args: return SEmpty(q.sort[1][1])
    if q.op == "SLit" and len(q.args) == 1: return q.args[0]
    return mk("SFoldU", (q,), q.sort[1])


def First(x, i, src, cond, val):
    return _choice("First", x, i, src, cond, val)


def Last(x, i, src, cond, val):
    return _choice("Last", x, i, src, cond, val)


def forced(p, x):
    """the one term (without x) that x equals wherever p holds, if p says so on every branch"""
    if p.op == "Eq":
        for a, b in (p.args, p.args[::-1]):
            if a is x and x not in b.fv: return b
    if p.op == "And":
        for q in p.args:
            e = forced(q, x) if x in q.fv else None
            if e is not None: return e
    if p.op in ("Ite", "Or") and p.sort == BOOL:
        es = {forced(q, x) for q in (p.args if p.op == "Or" else p.args[1:]) if q is not FALSE}
        if len(es) == 1: return es.pop()
    return None


def _choice(op, x, i, src, cond, val):
    if i is not None and i not in cond.fv | val.fv: i = None
    bound = {x, i} if i is not None else {x}
    if not (val.fv & bound): return val
    if cond is TRUE and i is None and op == "First":
        return subst(val, {x: SNth(src, I(0))})
    if src.op == "SLit" and src.args and i is None:
        xs = src.args if op == "First" else src.args[::-1]
        r = subst(val, {x: xs[-1]})
        for v in reversed(xs[:-1]):
            r = Ite(subst(cond, {x: v}), subst(val, {x: v}), r)
        return r
    if i is None and src.op == "SComp" and len(src.data[0]) == 1:
        y0 = src.data[0][0]
        inner0 = src.args[1]
        y = fresh(y0.data.split("!")[0], y0.sort)
        inner = subst(inner0, {y0: y})
        if inner.op == "SLit" and len(inner.args) == 1:
            e = inner.args[0]
            return _choice(op, y, None, src.args[0], subst(cond, {x: e}), subst(val, {x: e}))
        if inner.op == "Ite" and inner.args[1].op == "SLit" and len(inner.args[1].args) == 1 and inner.args[2].op == "SLit" and not inner.args[2].args:
            e = inner.args[1].args[0]
            return _choice(op, y, None, src.args[0], And(inner.args[0], subst(cond, {x: e})), subst(val, {x: e}))
    # one-point
    lits = cond.args if cond.op == "And" else (cond,)
    for l in lits:
        if l.op == "Eq" and i is None:
            for a, b in (l.args, l.args[::-1]):
                if a is x and x not in b.fv:
                    return subst(val, {x: b})
    if i is None:
        e = forced(cond, x)
        if e is not None: return subst(val, {x: e})
        v2 = val
        for l in lits:
            if l.op == "Eq":
                for a, b in (l.args, l.args[::-1]):
                    if x in a.fv and x not in b.fv: v2 = replace(v2, a, b); break
            elif val.op not in ("Var", "MGet", "Proj", "Fld", "SNth"):
                v2 = replace(v2, l.args[0], FALSE) if l.op == "Not" else replace(v2, l, TRUE)
        val = v2
        if x not in v2.fv: return v2
    b = (x,) if i is None else (x, i)
    if i is None and val is not x: return subst(val, {x: mk(op, (src, cond, x), x.sort, (b,))})
    return mk(op, (src, cond, val), val.sort, (b,))


def SUntil(x, i, src, cond):
    """longest prefix of src without an element satisfying cond"""
    if i is not None and i not in cond.fv: i = None
    if cond is FALSE: return src
    b = (x,) if i is None else (x, i)
    return mk("SUntil", (src, cond), src.sort, (b,))


def Sum(x, i, src, e):
    if i is not None and i not in e.fv: i = None
    if is_const(e):
        if cval(e) == 0: return I(0)
        return Mul2(SLen(src), cval(e))
    if i is None and src.op == "SLit":
        return Add(*[subst(e, {x: v}) for v in src.args])
    if i is None and src.op == "SCat":
        return Add(*[Sum(x, None, p, e) for p in src.args])
    if e.op == "Ite" and i is None and is_const(e.args[1]) and is_const(e.args[2]) and cval(e.args[2]) == 0:
        return Mul2(SLen(SComp(x, None, src, Ite(e.args[0], SLit(x.sort, x), SEmpty(x.sort)))), cval(e.args[1]))
    if i is None and src.op == "SComp":
        vs = _items_of(src.args[1])
        if vs is not None:
            vs = {subst(e, {x: v}) for v in vs}
            if len(vs) == 1 and is_const(v := next(iter(vs))): return Mul2(SLen(src), cval(v)) if cval(v) else I(0)
    b = (x,) if i is None else (x, i)
    return mk("Sum", (src, e), INT, (b,))


def _items_of(t):
    if t.op == "SLit": return list(t.args)
    if t.op in ("Ite", "SCat"):
        r = []
        for a in (t.args if t.op == "SCat" else t.args[1:]):
            q = _items_of(a)
            if q is None: return None
            r += q
        return r
    return None


def MinOf(x, src, guard, e, default):
    """min(default, min{e(x) | x in src, guard(x)})   (Int)"""
    if guard is FALSE: return default
    if src.op == "SLit":
        r = default
        for v in src.args:
            ev_ = subst(e, {x: v})
            r = Ite(And(subst(guard, {x: v}), Lt(ev_, r)), ev_, r)
        return r
    if src.op == "SComp" and len(src.data[0]) == 1:
        y0 = src.data[0][0]
        y = fresh(y0.data.split("!")[0], y0.sort)
        inner = subst(src.args[1], {y0: y})
        if inner.op == "SLit" and len(inner.args) == 1:
            v = inner.args[0]
            return MinOf(y, src.args[0], subst(guard, {x: v}), subst(e, {x: v}), default)
        if inner.op == "Ite" and inner.args[1].op == "SLit" and len(inner.args[1].args) == 1 and inner.args[2].op == "SLit" and not inner.args[2].args:
            v = inner.args[1].args[0]
            return MinOf(y, src.args[0], And(inner.args[0], subst(guard, {x: v})), subst(e, {x: v}), default)
    return mk("MinOf", (src, guard, e, default), INT, ((x,),))


def SGen(i, n, body):
    """[body(i) for i in range(n)]"""
    x = i
    return SComp(x, None, SRange(n), SLit(body.sort, body))


def subst_gen(s, i):
    raise NotImplementedError


# ------------------------------------------------------------------ sets (sequences modulo order and repetition)
def SetOf(s):
    if s.op == "SOfSet": return s.args[0]
    if s.op in ("SSort", "SRev"): return SetOf(s.args[0])
    if s.op == "SDedup" and s.args[1] is s.data[0][0]: return SetOf(s.args[0])
    if s.op == "SComp" and len(s.data[0]) == 1:
        b = s.args[0]
        while b.op in ("SSort", "SRev") or b.op == "SDedup" and b.args[1] is b.data[0][0] or b.op == "SOfSet" and b.args[0].op == "SetOf":
            b = b.args[0].args[0] if b.op == "SOfSet" else b.args[0]
        if b is not s.args[0]: return SetOf(SComp(s.data[0][0], None, b, s.args[1]))
    return mk("SetOf", (s,), SetS(s.sort[1]))


def SOfSet(st):
    """the elements of a set, each once, in an unspecified order"""
    if st.op == "Ite":
        return Ite(st.args[0], SOfSet(st.args[1]), SOfSet(st.args[2]))
    if st.op == "SetOf" and st.args[0].op == "SLit" and len(st.args[0].args) <= 1:
        return st.args[0]
    return mk("SOfSet", (st,), Seq(st.sort[1]))


def set_elems(st):
    """a sequence with the same members (order/repetition unspecified)"""
    if st.op == "SetOf": return st.args[0]
    if st.op == "Ite":
        return Ite(st.args[0], set_elems(st.args[1]), set_elems(st.args[2]))
    return SOfSet(st)


def SetIn(st, v): return SMem(set_elems(st), v)


def SetEq(a, b):
    if a is b: return TRUE
    x = fresh("e", a.sort[1]); y = fresh("e", a.sort[1])
    sa, sb = set_elems(a), set_elems(b)
    return And(All(x, None, sa, SMem(sb, x)), All(y, None, sb, SMem(sa, y)))


def SetLe(a, b):
    x = fresh("e", a.sort[1])
    return All(x, None, set_elems(a), SMem(set_elems(b), x))


# ------------------------------------------------------------------ maps
def MOf(pairs):
    """dict built by inserting the (key, value) pairs in order (last value wins, first position kept)"""
    # pairs of a map again
    if pairs.op == "SComp" and len(pairs.data[0]) == 1 and pairs.args[0].op == "SKeys":
        x = pairs.data[0][0]
        m = pairs.args[0].args[0]
        if pairs.args[1] is SLit(pairs.sort[1], MkTup(x, MGet(m, x))): return m
    ks, vs = pairs.sort[1][1]
    if pairs.op == "SLit" or pairs.op == "SCat" and any(p.op == "SLit" and len(p.args) > 1 for p in pairs.args):
        pairs = SCat(pairs.sort[1], *[_merge_pairs(p) for p in (pairs.args if pairs.op == "SCat" else (pairs,))])
    return mk("MOf", (pairs,), Map(ks, vs))


def _merge_pairs(p):
    """adjacent insertions under the same key: the last one counts"""
    if p.op != "SLit": return p
    out = []
    for q in p.args:
        if out and Proj(0, out[-1]) is Proj(0, q): out[-1] = q
        else: out.append(q)
    return SLit(p.sort[1], *out)


def MEmpty(k, v): return MOf(SEmpty(Tup(k, v)))


def pairs_of(m):
    if m.op == "MOf": return m.args[0]
    if m.op == "Ite": return Ite(m.args[0], pairs_of(m.args[1]), pairs_of(m.args[2]))
    k = fresh("k", m.sort[1])
    return SComp(k, None, SKeys(m), SLit(Tup(m.sort[1], m.sort[2]), MkTup(k, MGet(m, k))))


def MUpd(m, k, v):
    p = pairs_of(m)
    return MOf(SCat(p.sort[1], p, SLit(p.sort[1], MkTup(k, v))))


def MHas(m, k):
    if m.op == "MOf":
        x = fresh("p", m.args[0].sort[1])
        return Ex(x, None, m.args[0], Eq(Proj(0, x), k))
    if m.op == "Ite": return Ite(m.args[0], MHas(m.args[1], k), MHas(m.args[2], k))
    if m.op == "MGroup":
        x, = m.data[0]
        x2 = fresh("x", x.sort)
        return Ex(x2, None, m.args[0], subst(And(m.args[1], Eq(m.args[2], k)), {x: x2}))
    if k.op == "Ite": return Ite(k.args[0], MHas(m, k.args[1]), MHas(m, k.args[2]))
    return mk("MHas", (m, k), BOOL)


def MGet(m, k):
    """value at k (unspecified when absent)"""
    if m.op == "Ite": return Ite(m.args[0], MGet(m.args[1], k), MGet(m.args[2], k))
    if m.op == "MOf":
        p = m.args[0]
        return _last_pair(p, k, m.sort[2])
    if m.op == "MGroup":
        x, = m.data[0]
        x2 = fresh("x", x.sort)
        src, guard, key, contrib = m.args
        sub = {x: x2}
        s = SComp(x2, None, src, Ite(And(subst(guard, sub), Eq(subst(key, sub), k)), subst(contrib, sub), SEmpty(contrib.sort[1])))
        return finalize(s, m.data[1])
    if k.op == "Ite": return Ite(k.args[0], MGet(m, k.args[1]), MGet(m, k.args[2]))
    return mk("MGet", (m, k), m.sort[2])


def finalize(s, kind):
    if kind == "seq": return s
    if kind == "foldu": return SFoldU(s)
    if kind == "set": return SetOf(s)
    if kind == "map": return MOf(s)
    if isinstance(kind, tuple):     # ("group", kind, value sort): the elements are (key, contribution) again
        p = fresh("p", s.sort[1])
        return MGroup(p, s, TRUE, Proj(0, p), Proj(1, p), kind[1], kind[2])
    raise IRError(kind)


def _last_pair(p, k, vs):
    if p.op == "SCat":
        x = fresh("p", p.sort[1])
        r = _last_pair(p.args[0], k, vs)
        for q in p.args[1:]:
            has = Ex(x, None, q, Eq(Proj(0, x), k))
            r = Ite(has, _last_pair(q, k, vs), r)
        return r
    if p.op == "Ite": return Ite(p.args[0], _last_pair(p.args[1], k, vs), _last_pair(p.args[2], k, vs))
    if p.op == "SLit":
        if not p.args: return mk("Undef", (k,), vs, "lookup")
        r = Proj(1, p.args[0])
        for q in p.args[1:]:
            r = Ite(Eq(Proj(0, q), k), Proj(1, q), r)
        return r
    if p.op == "SComp" and len(p.data[0]) == 1:
        x0 = p.data[0][0]
        x = fresh(x0.data.split("!")[0], x0.sort)
        inner = subst(p.args[1], {x0: x})
        y = fresh("p", p.sort[1])
        has = Ex(y, None, inner, Eq(Proj(0, y), k))
        return Last(x, None, p.args[0], has, _last_pair(inner, k, vs))
    y = fresh("p", p.sort[1])
    return Last(y, None, p, Eq(Proj(0, y), k), Proj(1, y))


def SKeys(m):
    if m.op == "MOf":
        ks = smap(m.args[0], lambda p: Proj(0, p))
        if ks.op == "SKeys": return ks
        x = fresh("k", m.sort[1])
        return SDedup(x, ks, x)
    if m.op == "MGroup":
        x, = m.data[0]
        y = fresh("k", m.sort[1])
        ks = SComp(x, None, m.args[0], Ite(m.args[1], SLit(m.sort[1], m.args[2]), SEmpty(m.sort[1])))
        return SDedup(y, ks, y)
    if m.op == "Ite": return Ite(m.args[0], SKeys(m.args[1]), SKeys(m.args[2]))
    return mk("SKeys", (m,), Seq(m.sort[1]))


def MGroup(x, src, guard, key, contrib, kind, vsort):
    """{k: finalize(concat of contrib(x) for x in src with guard(x), key(x)=k)}"""
    return mk("MGroup", (src, guard, key, contrib), Map(key.sort, vsort), ((x,), kind))


def MEq(a, b):
    """python dict equality (order of insertion ignored)"""
    if a is b: return TRUE
    k1 = fresh("k", a.sort[1]); k2 = fresh("k", a.sort[1])
    ka, kb = _keyset(a), _keyset(b)
    return And(All(k1, None, ka, And(MHas(b, k1), VEq(MGet(a, k1), MGet(b, k1)))),
               All(k2, None, kb, MHas(a, k2)))


def _keyset(m):
    if m.op == "MOf": return smap(m.args[0], lambda p: Proj(0, p))
    return SKeys(m)


def VEq(a, b):
    """python equality between two terms of any sort (dicts/sets unordered inside)"""
    if a.sort == b.sort and isinstance(a.sort, tuple):
        k = a.sort[0]
        if k == "Set": return SetEq(a, b)
        if k == "Map": return MEq(a, b)
        if k == "Tup": return And(*[VEq(Proj(i, a), Proj(i, b)) for i in range(len(a.sort[1]))])
        if k == "Rec" and _has_unordered(a.sort, set()):
            return And(*[VEq(Fld(a.sort[1], f, a), Fld(a.sort[1], f, b)) for f, _ in REC_FIELDS[a.sort[1]]])
    return Eq(a, b)


def _has_unordered(s, seen):
    if not isinstance(s, tuple): return False
    if s[0] in ("Set", "Map"): return True
    if s[0] == "Rec":
        if s[1] in seen: return False
        seen.add(s[1])
        return any(_has_unordered(t, seen) for _, t in REC_FIELDS[s[1]])
    if s[0] == "Tup": return any(_has_unordered(t, seen) for t in s[1])
    if s[0] == "Seq": return _has_unordered(s[1], seen)
    return False


# ------------------------------------------------------------------ optionals: ('Opt', s) values
def SomeT(v): return mk("Some", (v,), Opt(v.sort))
def NoneOf(s): return mk("NoneOf", (), Opt(s))


def IsSome(o):
    if o.op == "Some": return TRUE
    if o.op == "NoneOf": return FALSE
    if o.op == "Ite": return Ite(o.args[0], IsSome(o.args[1]), IsSome(o.args[2]))
    return mk("IsSome", (o,), BOOL)


def TheSome(o):
    if o.op == "Some": return o.args[0]
    if o.op == "NoneOf": return mk("Undef", (), o.sort[1])
    if o.op == "Ite":
        a, b = o.args[1], o.args[2]
        if a.op == "NoneOf": return TheSome(b)
        if b.op == "NoneOf": return TheSome(a)
        return Ite(o.args[0], TheSome(a), TheSome(b))
    return mk("TheSome", (o,), o.sort[1])


# ------------------------------------------------------------------ JSON values
JKINDS = ("null", "bool", "int", "float", "str", "list", "dict", "other")


def JIs(kind, j):
    if j.op == "ToJ":
        s = j.args[0].sort
        k = {BOOL: "bool", INT: "int", STR: "str", NONE: "null"}.get(s)
        if k is None:
            k = {"Seq": "list", "Map": "dict"}[s[0]]
        return B(k == kind)
    if j.op == "Ite": return Ite(j.args[0], JIs(kind, j.args[1]), JIs(kind, j.args[2]))
    return mk("JIs", (j,), BOOL, kind)


def ToJ(t):
    if t.sort == J: return t
    if t.op in ("JStr", "JBool", "JInt", "JList", "JMap") and False:
        return t.args[0]
    if t.op == "Ite": return Ite(t.args[0], ToJ(t.args[1]), ToJ(t.args[2]))
    return mk("ToJ", (t,), J)


def JAs(kind, j):
    """payload of a JSON value of that kind"""
    sort = {"str": STR, "bool": BOOL, "int": INT, "list": Seq(J), "dict": Map(STR, J)}[kind]
    if j.op == "ToJ" and j.args[0].sort == sort: return j.args[0]
    if j.op == "Ite":
        return Ite(j.args[0], JAs(kind, j.args[1]), JAs(kind, j.args[2]))
    if j.op == "ToJ": return mk("Undef", (j,), sort)
    return mk("JAs", (j,), sort, kind)


_REBUILD = {
    "Not": lambda t, a, d: Not(a[0]), "And": lambda t, a, d: And(*a), "Or": lambda t, a, d: Or(*a),
    "Ite": lambda t, a, d: Ite(*a), "Eq": lambda t, a, d: Eq(*a), "Add": lambda t, a, d: Add(*a),
    "Neg": lambda t, a, d: Neg(a[0]), "Mul": lambda t, a, d: Mul(*a), "Lt": lambda t, a, d: Lt(*a),
    "StrLt": lambda t, a, d: Lt(*a), "StrCat": lambda t, a, d: StrCat(*a),
    "StrOp": lambda t, a, d: StrOp(d, *a, sort=t.sort), "InRe": lambda t, a, d: InRe(d, a[0]),
    "MkTup": lambda t, a, d: MkTup(*a), "Proj": lambda t, a, d: Proj(d, a[0]),
    "MkRec": lambda t, a, d: MkRec(d[0], *a), "Fld": lambda t, a, d: Fld(d[0], d[1], a[0]),
    "SLit": lambda t, a, d: SLit(t.sort[1], *a), "SCat": lambda t, a, d: SCat(t.sort[1], *a),
    "SComp": lambda t, a, d: SComp(d[0][0], d[0][1] if len(d[0]) > 1 else None, *a),
    "Dup": lambda t, a, d: Dup(d[0][0], *a),
    "Ex": lambda t, a, d: Ex(d[0][0], d[0][1] if len(d[0]) > 1 else None, *a),
    "SPrefix": lambda t, a, d: SPrefix(*a), "SSuffix": lambda t, a, d: SSuffix(*a),
    "SNth": lambda t, a, d: SNth(*a), "SLen": lambda t, a, d: SLen(a[0]),
    "NonEmpty": lambda t, a, d: NonEmpty(a[0]), "SMem": lambda t, a, d: SMem(*a),
    "SIdx": lambda t, a, d: SIdx(*a), "SUpd": lambda t, a, d: SUpd(*a), "SRange": lambda t, a, d: SRange(*a),
    "SSort": lambda t, a, d: SSort(d[0][0], a[0], a[1], d[1]),
    "SRev": lambda t, a, d: SRev(a[0]), "SDedup": lambda t, a, d: SDedup(d[0][0], *a),
    "SOrdU": lambda t, a, d: SOrdU(*a),
    "SFoldU": lambda t, a, d: SFoldU(*a),
    "Contig": lambda t, a, d: Contig(*a),
    "GroupOf": lambda t, a, d: mk("GroupOf", a, t.sort, d), "Opq": lambda t, a, d: mk("Opq", a, t.sort),
    "First": lambda t, a, d: First(d[0][0], d[0][1] if len(d[0]) > 1 else None, *a),
    "Last": lambda t, a, d: Last(d[0][0], d[0][1] if len(d[0]) > 1 else None, *a),
    "SUntil": lambda t, a, d: SUntil(d[0][0], d[0][1] if len(d[0]) > 1 else None, *a),
    "Sum": lambda t, a, d: Sum(d[0][0], d[0][1] if len(d[0]) > 1 else None, *a),
    "MinOf": lambda t, a, d: MinOf(d[0][0], *a),
    "SetOf": lambda t, a, d: SetOf(a[0]), "SOfSet": lambda t, a, d: SOfSet(a[0]),
    "MOf": lambda t, a, d: MOf(a[0]), "MHas": lambda t, a, d: MHas(*a), "MGet": lambda t, a, d: MGet(*a),
    "SKeys": lambda t, a, d: SKeys(a[0]),
    "MGroup": lambda t, a, d: mk("MGroup", a, t.sort, d),
    "Some": lambda t, a, d: SomeT(a[0]), "IsSome": lambda t, a, d: IsSome(a[0]), "TheSome": lambda t, a, d: TheSome(a[0]),
    "JIs": lambda t, a, d: JIs(d, a[0]), "ToJ": lambda t, a, d: ToJ(a[0]), "JAs": lambda t, a, d: JAs(d, a[0]),
}


# ------------------------------------------------------------------ printing
_SHOWN = [0]


def show(t, depth=0):
    if depth == 0: _SHOWN[0] = 0
    _SHOWN[0] += 1
    if depth > 30 or _SHOWN[0] > 20000: return "…"
    o = t.op
    d = depth + 1
    if o == "Var": return t.data
    if o == "Const": return repr(t.data[1])
    if o in BINDERS:
        bs = ",".join(b.data for b in t.data[0])
        return "%s{%s ∈ %s | %s}%s" % (o, bs, show(t.args[0], d), "; ".join(show(a, d) for a in t.args[1:]),
                                       "" if len(t.data) == 1 else str(t.data[1:]))
    if o == "Fld": return "%s.%s" % (show(t.args[0], d), t.data[1])
    if o == "Eq": return "(%s = %s)" % (show(t.args[0], d), show(t.args[1], d))
    if o == "And": return "(" + " ∧ ".join(show(a, d) for a in t.args) + ")"
    if o == "Or": return "(" + " ∨ ".join(show(a, d) for a in t.args) + ")"
    if o == "Not": return "¬" + show(t.args[0], d)
    if o == "SLit": return "[" + ", ".join(show(a, d) for a in t.args) + "]"
    x = "" if t.data is None else "<%s>" % (t.data,)
    return "%s%s(%s)" % (o, x, ", ".join(show(a, d) for a in t.args))


def size(t):
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u in seen: continue
        seen.add(u)
        st.extend(u.args)
    return len(seen)


# ------------------------------------------------------------------ evaluator (reference semantics)
class CRec:
    __slots__ = ("cls", "vals")
    def __init__(self, cls, vals): self.cls, self.vals = cls, tuple(vals)
    def __eq__(self, o): return isinstance(o, CRec) and (self.cls, self.vals) == (o.cls, o.vals)
    def __hash__(self): return hash((self.cls, self.vals))
    def __repr__(self): return "%s%r" % (self.cls, self.vals)


class FMap(tuple):
    """ordered map value: tuple of (k, v); equality is order-sensitive (use veq for python equality)"""
    __slots__ = ()
    def __new__(cls, pairs=()):
        d = {}
        for k, v in pairs: d[k] = v
        return super().__new__(cls, tuple(d.items()))
    def get(self, k, default=None):
        for a, b in self:
            if a == k: return b
        return default
    def has(self, k): return any(a == k for a, _ in self)
    def __repr__(self): return "FMap" + super().__repr__()


class Undefined(Exception):
    pass


def ev(t, env, memo=None):
    """Evaluate under env {Var: python value}.  Seq->tuple, Set->frozenset, Map->FMap, Rec->CRec, Tup->tuple,
    Opt -> ('some', v) | None, J -> tagged tuples ('dict', FMap) etc."""
    if memo is None: memo = {}
    return _ev(t, env, memo)


def _ev(t, env, memo):
    # memo only for closed-under-env subterms: key includes the values of free bound vars
    op = t.op
    if op == "Var":
        try: return env[t]
        except KeyError: raise Undefined("unbound " + t.data)
    if op == "Const": return t.data[1]
    a = t.args
    E = lambda u: _ev(u, env, memo)
    if op == "Not": return not E(a[0])
    if op == "And":
        err = None
        for x in a:
            try:
                if not E(x): return False
            except Undefined as e: err = e
        if err: raise err
        return True
    if op == "Or":
        err = None
        for x in a:
            try:
                if E(x): return True
            except Undefined as e: err = e
        if err: raise err
        return False
    if op == "Ite": return E(a[1]) if E(a[0]) else E(a[2])
    if op == "Eq": return E(a[0]) == E(a[1])
    if op == "Add": return sum(E(x) for x in a)
    if op == "Neg": return -E(a[0])
    if op == "Mul": return E(a[0]) * E(a[1])
    if op in ("Lt", "StrLt", "SeqLt"): return E(a[0]) < E(a[1])
    if op == "StrCat": return "".join(E(x) for x in a)
    if op == "StrOp":
        return STROPS[t.data](*[E(x) for x in a])
    if op == "InRe": return REGEX_EVAL(t.data, E(a[0]))
    if op == "MkTup": return tuple(E(x) for x in a)
    if op == "Proj": return E(a[0])[t.data]
    if op == "MkRec": return CRec(t.data[0], [E(x) for x in a])
    if op == "Fld":
        r = E(a[0])
        return r.vals[[f for f, _ in REC_FIELDS[t.data[0]]].index(t.data[1])]
    if op == "HashOf": return ("hash", E(a[0]))
    if op == "App": return APPS[t.data](*[E(x) for x in a])
    if op == "SLit": return tuple(E(x) for x in a)
    if op == "SCat": return tuple(v for x in a for v in E(x))
    if op == "Dup":
        ks = [_ev(a[1], {**env, t.data[0][0]: v}, {}) for v in E(a[0])]
        return any(k in ks[:n] for n, k in enumerate(ks))
    if op in ("SComp", "Ex", "First", "Last", "Sum", "SUntil"):
        src = E(a[0])
        b = t.data[0]
        def envs():
            for n, v in enumerate(src):
                e2 = dict(env); e2[b[0]] = v
                if len(b) > 1: e2[b[1]] = n
                yield v, e2
        if op == "SComp": return tuple(w for v, e2 in envs() for w in _ev(a[1], e2, memo))
        if op == "Ex": return any(_ev(a[1], e2, memo) for v, e2 in envs())
        if op == "Sum": return sum(_ev(a[1], e2, memo) for v, e2 in envs())
        if op == "SUntil":
            out = []
            for v, e2 in envs():
                if _ev(a[1], e2, memo): break
                out.append(v)
            return tuple(out)
        res = None
        for v, e2 in envs():
            if _ev(a[1], e2, memo):
                res = e2
                if op == "First": break
        if res is None: raise Undefined(op)
        return _ev(a[2], res, memo)
    if op == "MinOf":
        r = E(a[3])
        for v in E(a[0]):
            e2 = dict(env); e2[t.data[0][0]] = v
            if _ev(a[1], e2, memo): r = min(r, _ev(a[2], e2, memo))
        return r
    if op == "SPrefix": return E(a[0])[:max(E(a[1]), 0)]
    if op == "SSuffix": return E(a[0])[E(a[1]):]
    if op == "SNth":
        s, n = E(a[0]), E(a[1])
        if not 0 <= n < len(s): raise Undefined("nth")
        return s[n]
    if op == "SLen": return len(E(a[0]))
    if op == "NonEmpty": return len(E(a[0])) > 0
    if op == "SMem": return E(a[1]) in E(a[0])
    if op == "SIdx":
        try: return E(a[0]).index(E(a[1]))
        except ValueError: raise Undefined("idx")
    if op == "SUpd":
        s = list(E(a[0])); s[E(a[1])] = E(a[2]); return tuple(s)
    if op == "SRange": return tuple(range(E(a[0])))
    if op == "SSort":
        def k(v):
            e2 = dict(env); e2[t.data[0][0]] = v
            return _ev(a[1], e2, memo)
        return tuple(sorted(E(a[0]), key=k, reverse=t.data[1]))
    if op == "SRev": return E(a[0])[::-1]
    if op == "SDedup":
        seen, out = [], []
        for v in E(a[0]):
            e2 = dict(env); e2[t.data[0][0]] = v
            k = _ev(a[1], e2, memo)
            if k not in seen:
                seen.append(k); out.append(v)
        return tuple(out)
    if op == "SOrdU":
        out = list(E(a[0]))
        for v in E(a[1]):
            if v not in out: out.append(v)
        return tuple(out)
    if op == "Opq": return E(a[0])
    if op == "Contig":
        xs = list(E(a[0]))
        return all(xs[i] == xs[i - 1] or xs[i] not in xs[:i] for i in range(1, len(xs)))
    if op == "GroupOf": return E(group_items(t))
    if op == "SFoldU": return foldu(E(a[0]))
    if op == "SetOf": return frozenset(E(a[0]))
    if op == "SOfSet": return tuple(sorted(E(a[0]), key=repr))
    if op == "MOf": return FMap(E(a[0]))
    if op == "MGroup":
        d = {}
        x = t.data[0][0]
        for v in E(a[0]):
            e2 = dict(env); e2[x] = v
            if _ev(a[1], e2, memo):
                d.setdefault(_ev(a[2], e2, memo), []).extend(_ev(a[3], e2, memo))
        def fin(kind, v):
            if isinstance(kind, str): return {"seq": tuple, "set": frozenset, "map": FMap, "foldu": foldu}[kind](v)
            g = {}
            for k, w in v: g.setdefault(k, []).extend(w)
            return FMap((k, fin(kind[1], w)) for k, w in g.items())
        return FMap((k, fin(t.data[1], v)) for k, v in d.items())
    if op == "MHas": return E(a[0]).has(E(a[1]))
    if op == "MGet":
        m, k = E(a[0]), E(a[1])
        if not m.has(k): raise Undefined("get")
        return m.get(k)
    if op == "SKeys": return tuple(k for k, _ in E(a[0]))
    if op == "Some": return ("some", E(a[0]))
    if op == "NoneOf": return None
    if op == "IsSome": return E(a[0]) is not None
    if op == "TheSome":
        o = E(a[0])
        if o is None: raise Undefined("some")
        return o[1]
    if op == "JIs": return E(a[0])[0] == t.data
    if op == "JAs":
        j = E(a[0])
        if j[0] != t.data: raise Undefined("j")
        return j[1]
    if op == "ToJ":
        s = a[0].sort
        v = E(a[0])
        k = {BOOL: "bool", INT: "int", STR: "str", NONE: "null"}.get(s)
        if k: return (k, v)
        k = {"Seq": "list", "Map": "dict"}[s[0]]
        return (k, v)
    if op == "Undef": raise Undefined("undef")
    if op == "Mod": return E(a[0]) % E(a[1])
    if op == "StrFlat": return "".join(E(a[0]))
    if op == "StrJoin": return E(a[0]).join(E(a[1]))
    raise IRError("ev: " + op)


def foldu(us):
    out = []
    for u in us:
        if not out: out.extend(u)
        else:
            for v in u:
                if v not in out: out.append(v)
    return tuple(out)


def veq(a, b):
    """python equality on evaluated values (maps unordered)"""
    if isinstance(a, FMap) and isinstance(b, FMap):
        return len(a) == len(b) and all(b.has(k) and veq(v, b.get(k)) for k, v in a)
    if isinstance(a, CRec) and isinstance(b, CRec):
        return a.cls == b.cls and all(veq(x, y) for x, y in zip(a.vals, b.vals))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(veq(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b
