"""Proof obligations: structural decomposition of equalities, then z3.

prove(hyps, goal) answers "proved" (every generated subgoal was closed, either because both sides are the
same canonical term or by z3 returning unsat on the negation) or "failed"/"unknown" with the open subgoal."""
from __future__ import annotations
import itertools, time, functools
import z3
from . import ir, regexp, strings
from .ir import *

STATS = {"syntactic": 0, "z3": 0, "z3_s": 0.0, "open": 0}
DEADLINE = [None]


class Open(Exception):
    def __init__(self, why, hyps, goal): self.why, self.hyps, self.goal = why, hyps, goal


# ------------------------------------------------------------------ simplification under hypotheses
def lits_of(hyps):
    out = []
    st = list(reversed(hyps))
    seen = set()
    while st:
        h = st.pop()
        if h in seen: continue
        seen.add(h)
        if h.op == "And": st.extend(reversed(h.args))
        elif h.op == "Not" and h.args[0].op == "Or": st.extend(Not(a) for a in h.args[0].args)
        else: out.append(h)
    return out


class HMap(dict):
    """rewrites from hypotheses; univ: sequence -> [(hypothesis, bound variable, fact about every element)]; inj: maps without equal values"""
    univ: dict = {}
    inj: tuple = ()
    own = None


def sub_map(entries, m, own):
    r = HMap(entries)
    r.univ, r.inj, r.own = m.univ, m.inj, own
    return r


def injective(m, a, b):
    """values of a map that has no two equal values are equal: so are the keys"""
    return a.op == b.op == "MGet" and a.args[0] is b.args[0] and a.args[0] in m.inj and all(m.get(ir.MHas(*x.args), ir.MHas(*x.args)) is TRUE for x in (a, b))


def base_seq(s):
    """sequences all of whose elements are elements of s: s itself and what it is a selection of"""
    out = [s]
    while True:
        if s.op in ("SPrefix", "SSort", "SRev", "SDedup", "SUntil", "SSuffix"): s = s.args[0]
        elif s.op == "SComp" and len(s.data[0]) == 1 and all(l.op == "SLit" and all(e is s.data[0][0] for e in l.args) for l in _leaves(s.args[1])): s = s.args[0]
        else: return out
        out.append(s)


def _leaves(t):
    if t.op == "Ite": return _leaves(t.args[1]) + _leaves(t.args[2])
    return [t]


def elem_univ(univ, src, own=None):
    if not univ: return []
    return [(x, P) for s in base_seq(src) for h, x, P in univ.get(s, ()) if h is not own]


_AT: dict = {}
_BODY: dict = {}


def at(P, x, y):
    """P of y instead of x"""
    r = _AT.get((P, x, y))
    if r is None:
        if len(_AT) > 300000: _AT.clear()
        r = _AT[P, x, y] = subst(P, {x: y})
    return r


def opened(t):
    """variables of its own for a binder, and what is in its scope with them"""
    r = _BODY.get(t)
    if r is None:
        new = tuple(fresh("s", v.sort) for v in t.data[0])
        ren = dict(zip(t.data[0], new))
        r = _BODY[t] = (new, tuple(subst(a, ren) for a in t.args[1:]))
    return r


def simp(t, m, memo):
    """replace subterms by the map m (literals -> TRUE/FALSE, terms -> terms)"""
    r = m.get(t)
    if r is not None: return r
    r = memo.get(t)
    if r is not None: return r
    if not t.args: return t
    if t.op in ("SComp", "Ex", "Dup", "MinOf", "Sum") and m.get(ir.NonEmpty(t.args[0])) is FALSE:
        r = memo[t] = ir.SEmpty(t.sort[1]) if t.op == "SComp" else simp(t.args[3], m, memo) if t.op == "MinOf" else ir.I(0) if t.op == "Sum" else FALSE
        return r
    univ = getattr(m, "univ", None)
    if univ is not None and t.op in ir.BINDERS and (univ or m.inj):
        facts = elem_univ(univ, t.args[0], m.own)
        keys = t.args[0].op == "SKeys" and t.args[0].args[0] in m.inj
        if facts or keys:
            new, body = opened(t)
            lits = lits_of([at(P, x, new[0]) for x, P in facts])
            for l in list(lits):
                # an element of this sequence is also an element of that one
                if l.op in ("SMem", "MHas") and l.args[1] is new[0]:
                    lits += lits_of([at(P, x, new[0]) for x, P in elem_univ(univ, l.args[0] if l.op == "SMem" else ir.SKeys(l.args[0]), m.own)])
            if keys: lits.append(ir.MHas(t.args[0].args[0], new[0]))
            m2 = sub_map(m, m, m.own)
            for k, v in hyp_map(lits).items(): m2.setdefault(k, v)
            memo2 = {}
            args = [simp(t.args[0], m, memo)] + [simp(a, m2, memo2) for a in body]
            if args[0] is t.args[0] and all(a is b for a, b in zip(args[1:], body)): r = t
            else: r = rebuild(t, args, (new,) + tuple(t.data[1:]))
            memo[t] = r
            return r
    args = [simp(a, m, memo) for a in t.args]
    if t.op == "Eq" and getattr(m, "inj", None) and injective(m, *args):
        r = memo[t] = simp(Eq(args[0].args[1], args[1].args[1]), m, memo)
        return r
    if t.op in ("MHas", "SMem") and m.get(ir.NonEmpty(ir.SKeys(args[0]) if t.op == "MHas" else args[0])) is FALSE:
        r = memo[t] = FALSE
        return r
    r = t if all(a is b for a, b in zip(args, t.args)) else rebuild(t, args, t.data)
    if r is not t:
        r2 = m.get(r)
        if r2 is not None: r = r2
    memo[t] = r
    return r


def hyp_map(lits):
    m = HMap()
    univ = {}
    inj = []
    for h in lits:
        if h.op == "Not":
            m[h.args[0]] = FALSE
            e = h.args[0]
            if e.op == "Dup" and e.args[0].op == "SKeys" and e.args[1].op == "MGet" and e.args[1].args[0] is e.args[0].args[0] and e.args[1].args[1] is e.data[0][0]:
                inj.append(e.args[0].args[0])
            if e.op == "Ex" and len(e.data[0]) == 1:
                univ.setdefault(e.args[0], []).append((h, e.data[0][0], Not(e.args[1])))
        else:
            m[h] = TRUE
            if h.op in ("MHas", "SMem"):
                ne = ir.NonEmpty(ir.SKeys(h.args[0]) if h.op == "MHas" else h.args[0])
                if ne.op == "NonEmpty": m.setdefault(ne, TRUE)
            if h.op == "Eq":
                a, b = h.args
                # orient towards constants, then towards the smaller term
                for x, y in ((a, b), (b, a)):
                    if is_const(y) or (x.op == "Var" and x not in y.fv):
                        if x not in m and not is_const(x): m[x] = y
                        break
                else:
                    if a.op in ("Fld", "Proj") and b.op in ("Fld", "Proj"):
                        x, y = (a, b) if a.uid > b.uid else (b, a)
                        if x not in m and y not in m: m[x] = y
            if h.op == "JIs":
                for k in JKINDS:
                    if k != h.data: m[JIs(k, h.args[0])] = FALSE
                try:
                    tj = ToJ(JAs(h.data, h.args[0]))
                    if tj is not h.args[0]: m[tj] = h.args[0]
                except Exception: pass
    m.univ, m.inj = univ, tuple(inj)
    return m


_SATURATED: dict = {}


def saturate(hyps):
    """literals simplified by each other; None if contradictory"""
    k = tuple(hyps)
    if k in _SATURATED: return _SATURATED[k]
    r = _saturate(k)
    if len(_SATURATED) > 4000: _SATURATED.clear()
    _SATURATED[k] = r
    if r is not None: _SATURATED[tuple(r)] = r
    return r


def _saturate(hyps):
    lits = lits_of(hyps)
    inst = set()
    for _ in range(8):
        m = hyp_map(lits)
        new = []
        changed = False
        for h in lits:
            # a literal must not be rewritten by itself
            own = {h: None, (h.args[0] if h.op == "Not" else h): None}
            mm = sub_map({k: v for k, v in m.items() if k not in own and not (h.op == "Eq" and k in h.args) and not (h.op == "JIs" and k.op == "ToJ")}, m, h)
            h2 = simp(h, mm, {})
            if h2 is not h and h.op == "Not" and h.args[0].op == "Ex":
                # what made h simpler is not dropped in turn because of h
                m.pop(h.args[0], None)
                u = m.univ.get(h.args[0].args[0])
                if u: m.univ[h.args[0].args[0]] = [e for e in u if e[0] is not h]
            if h2 is FALSE: return None
            if h2 is TRUE: 
                if h2 is not h: changed = True
                continue
            if h2 is not h: changed = True
            new.extend(lits_of([h2]))
            if h2.op == "Eq" and h2.args[0].op == "SIdx" and h2.args[1].op == "SIdx" and h2.args[0].args[0] is h2.args[1].args[0]:
                s0, v1 = h2.args[0].args
                v2 = h2.args[1].args[1]
                if all(ir.SMem(s0, v) is TRUE or simp(ir.SMem(s0, v), m, {}) is TRUE for v in (v1, v2)):
                    # the same position holds the same item
                    new.pop(); new.extend(lits_of([Eq(v1, v2)])); changed = True
            if h2.op == "Eq":
                f = same_text(h2.args[0], h2.args[1])
                if f is not None and f not in inst:
                    inst.add(f); new.extend(lits_of([f])); changed = True
            if h2.op in ("SMem", "MHas"):
                for x, P in elem_univ(m.univ, h2.args[0] if h2.op == "SMem" else ir.SKeys(h2.args[0])):
                    f = subst(P, {x: h2.args[1]})
                    if f not in inst:
                        inst.add(f)
                        if f is FALSE: return None
                        new.extend(lits_of([f])); changed = True
        lits = list(dict.fromkeys(new))
        s = set(lits)
        if any(Not(l) in s for l in lits): return None
        if any(l.op in ("MHas", "SMem") and Not(ir.NonEmpty(ir.SKeys(l.args[0]) if l.op == "MHas" else l.args[0])) in s for l in lits): return None
        if not changed: break
    return lits


@functools.lru_cache(2000)
def same_text(a, b):
    """what equal texts that can be read back in one way only say about their parts"""
    if a.op != b.op: return None
    if a.op == "StrFlat":
        x, y = a.args[0], b.args[0]
        d = [strings.part_lang(i) for i in (made(x), made(y)) if i is not None]
        return Eq(x, y) if len(d) == 2 and strings.prefix_code(regexp.union(*d)) else None
    if a.op == "StrCat":
        p, q = strings.flat_parts(a), strings.flat_parts(b)
        if len(p) != len(q) or any((is_const(u) or is_const(v)) and u is not v for u, v in zip(p, q)): return None
        return And(*[Eq(u, v) for u, v in zip(p, q)]) if strings.one_reading(p, q) else None
    if a.op == "SComp" and made(a) is not None and made(b) is not None and a.data[0][0].sort == b.data[0][0].sort and made(a).op == "StrCat":
        u, v = fresh("u", a.data[0][0].sort), fresh("v", b.data[0][0].sort)
        e, f = subst(made(a), {a.data[0][0]: u}), subst(made(b), {b.data[0][0]: v})
        if subst(e, {u: v}) is f and holds([Eq(e, f)], Eq(u, v)): return Eq(a.args[0], b.args[0])
    return None


def made(s):
    """the one thing made of each item, if that is how s is made"""
    return s.args[1].args[0] if s.op == "SComp" and len(s.data[0]) == 1 and s.args[1].op == "SLit" and len(s.args[1].args) == 1 else None


# ------------------------------------------------------------------ string atoms as languages
@functools.lru_cache(None)
def _const_lang(s):
    import re
    return regexp.lang(re.escape(s))


def atom_lang(a):
    """(string term, DFA) for an atom about one string, or None"""
    r = atom_lang0(a)
    while r is not None:
        s, d = r
        if s.op == "StrOp" and s.data == "strip": r = s.args[0], strings._strip_pre(d)
        elif strings.is_group(s): r = s.args[0], strings._erase(strings._inter(strings.dfa_of_group(s), strings.content(d)))
        else: break
    return r


def atom_lang0(a):
    try:
        if a.op == "InRe": 
            t = regexp.TABLE[a.data]
            return (a.args[0], t) if not isinstance(t, tuple) else None
        if a.op == "Eq":
            for x, y in (a.args, a.args[::-1]):
                if is_const(y) and y.sort == STR: return x, _const_lang(cval(y))
                if is_const(y) and y.sort == INT and x.op == "StrOp" and x.data == "len":
                    n = cval(y)
                    return x.args[0], regexp.lang("(?s:.{%d})" % n) if n >= 0 else None
        if a.op == "Lt":
            x, y = a.args
            if is_const(x) and y.op == "StrOp" and y.data == "len": return y.args[0], regexp.lang("(?s:.{%d,})" % max(cval(x) + 1, 0))
            if is_const(y) and x.op == "StrOp" and x.data == "len":
                n = cval(y) - 1
                return (x.args[0], regexp.lang("(?s:.{0,%d})" % n)) if n >= 0 else None
        if a.op == "StrOp" and a.sort == BOOL and len(a.args) == 2 and is_const(a.args[1]):
            import re
            k = re.escape(cval(a.args[1]))
            p = {"contains": "(?s:.*%s.*)", "startswith": "(?s:%s.*)", "endswith": "(?s:.*%s)"}.get(a.data)
            if p: return a.args[0], regexp.lang(p % k)
    except regexp.Unsupported:
        return None
    return None


@functools.lru_cache(None)
def _sign_vectors(keys):
    """consistent truth assignments of membership in the given languages"""
    ds = [_LANGS[k] for k in keys]
    full = regexp.lang("(?s:.*)")
    out = []
    def go(k, cur, signs):
        if cur.is_empty(): return
        if k == len(ds): out.append(tuple(signs)); return
        go(k + 1, regexp.inter(cur, ds[k]), signs + [True])
        go(k + 1, regexp.minus(cur, ds[k]), signs + [False])
    go(0, full, [])
    return out


_LANGS: dict = {}


def field_lang(t):
    d = strings.part_lang(t)
    return None if d is strings.ALL else d


# ------------------------------------------------------------------ z3 translation
class Z:
    def __init__(self):
        self.sorts, self.funs, self.consts = {}, {}, {}
        self.axioms = []
        self.atoms = {}      # string term -> {lang key: atom}
        self.strs = {}
        self.seen_seq = {}
        self.nbind = itertools.count()
        self.facts_done = set()
        self.env = {}
        self.pending = []

    def sort(self, s):
        if s in self.sorts: return self.sorts[s]
        if s == BOOL: r = z3.BoolSort()
        elif s == INT: r = z3.IntSort()
        elif isinstance(s, tuple) and s[0] in ("Tup", "Rec", "Opt"):
            nm = "%s_%d" % (s[0], len(self.sorts))
            d = z3.Datatype(nm)
            if s[0] == "Tup": d.declare("mk" + nm, *[("p%d%s" % (i, nm), self.sort(x)) for i, x in enumerate(s[1])])
            elif s[0] == "Rec": d.declare("mk" + nm, *[(f + nm, self.sort(x)) for f, x in REC_FIELDS[s[1]]])
            else:
                d.declare("none" + nm); d.declare("some" + nm, ("the" + nm, self.sort(s[1])))
            r = d.create()
        else: r = z3.DeclareSort("S%d" % len(self.sorts))
        self.sorts[s] = r
        return r

    def fun(self, key, *sorts):
        f = self.funs.get(key)
        if f is None:
            f = self.funs[key] = z3.Function("f%d_%s" % (len(self.funs), str(key[0])), *[self.sort(s) for s in sorts])
        return f

    def app(self, key, args, argsorts, sort):
        if not args:
            c = self.consts.get(key)
            if c is None: c = self.consts[key] = z3.Const("c%d_%s" % (len(self.consts), str(key[0])), self.sort(sort))
            return c
        return self.fun(key, *argsorts, sort)(*args)

    def t(self, t, env):
        """z3 expression; env maps bound Vars"""
        op, a = t.op, t.args
        T = lambda u: self.t(u, env)
        if op == "Var":
            if t in env: return env[t]
            return self.app(("v", t), [], [], t.sort)
        if op == "Const":
            v = t.data[1]
            if t.sort == BOOL: return z3.BoolVal(v)
            if t.sort == INT: return z3.IntVal(v)
            if t.sort == STR:
                if v not in self.strs: self.strs[v] = z3.Const("str%d" % len(self.strs), self.sort(STR))
                return self.strs[v]
            return self.app(("k", t.sort, repr(v)), [], [], t.sort)
        if op == "Not": return z3.Not(T(a[0]))
        if op == "And": return z3.And(*[T(x) for x in a])
        if op == "Or": return z3.Or(*[T(x) for x in a])
        if op == "Ite": return z3.If(T(a[0]), T(a[1]), T(a[2]))
        if op in ("InRe", "Eq", "Lt", "StrOp"):
            al = atom_lang(t)
            if al is not None: return self.lang_atom(al[0], al[1], env)
        if op == "Eq": return T(a[0]) == T(a[1])
        if op == "Add": return z3.Sum(*[T(x) for x in a])
        if op == "Neg": return -T(a[0])
        if op == "Mul": return T(a[0]) * T(a[1])
        if op == "Lt": return T(a[0]) < T(a[1])
        if op == "StrLt":
            self.order()
            return self.fun(("strlt",), STR, STR, BOOL)(T(a[0]), T(a[1]))
        if op == "MkTup":
            s = self.sort(t.sort)
            return s.constructor(0)(*[T(x) for x in a])
        if op == "Proj": return self.sort(a[0].sort).accessor(0, t.data)(T(a[0]))
        if op == "MkRec": return self.sort(t.sort).constructor(0)(*[T(x) for x in a])
        if op == "Fld":
            k = [f for f, _ in REC_FIELDS[t.data[0]]].index(t.data[1])
            r = self.sort(a[0].sort).accessor(0, k)(T(a[0]))
            return r
        if op == "Some": return self.sort(t.sort).constructor(1)(T(a[0]))
        if op == "NoneOf": return self.sort(t.sort).constructor(0)()
        if op == "IsSome": return self.sort(a[0].sort).recognizer(1)(T(a[0]))
        if op == "TheSome": return self.sort(a[0].sort).accessor(1, 0)(T(a[0]))
        if op == "Dup":
            src, k = a
            x, = t.data[0]
            s = T(src); self.seq(src)
            n = next(self.nbind)
            i, j = z3.Const("di%d" % n, z3.IntSort()), z3.Const("dj%d" % n, z3.IntSort())
            nth = self.nth(src.sort)
            return z3.Exists([i, j], z3.And(i >= 0, i < j, j < self.len(src.sort)(s), self.t(k, {**env, x: nth(s, i)}) == self.t(k, {**env, x: nth(s, j)})))
        if op == "Ex":
            src, p = a
            b = t.data[0]
            s = T(src)
            e2 = dict(env)
            n = next(self.nbind)
            if len(b) == 1:
                v = z3.Const("b%d" % n, self.sort(b[0].sort))
                e2[b[0]] = v
                self.seq(src)
                return z3.Exists([v], z3.And(self.mem(src.sort)(s, v), self.t(p, e2)))
            i = z3.Const("i%d" % n, z3.IntSort())
            e2[b[1]] = i
            e2[b[0]] = self.nth(src.sort)(s, i)
            self.seq(src)
            return z3.Exists([i], z3.And(i >= 0, i < self.len(src.sort)(s), self.t(p, e2)))
        if op == "SMem":
            self.seq(a[0])
            return self.mem(a[0].sort)(T(a[0]), T(a[1]))
        if op == "NonEmpty":
            return self.len(a[0].sort)(T(a[0])) > 0
        if op == "SLen":
            return self.len(a[0].sort)(T(a[0]))
        if op == "SNth":
            return self.nth(a[0].sort)(T(a[0]), T(a[1]))
        if op in ("First", "Last"): return self.choice(t, env)
        if op in ir.BINDERS:
            fvs = sorted(t.fv, key=lambda v: v.data + str(v.sort))
            m = {v: Var("§%d" % n, v.sort) for n, v in enumerate(fvs)}
            shape = subst(t, m)
            return self.app(("bind", shape), [T(v) for v in fvs], [v.sort for v in fvs], t.sort)
        # everything else: uninterpreted function of its arguments
        return self.app((op, t.data, tuple(x.sort for x in a), t.sort), [T(x) for x in a], [x.sort for x in a], t.sort)

    def choice(self, t, env):
        """value at the first (last) position satisfying the condition; the position is a skolem function of
        the free variables, constrained whenever such a position exists"""
        src, cond, val = t.args
        bs = t.data[0]
        core = mk(t.op, (src, cond, mk("SelPos", (bs[0],), INT)), INT, (bs,))
        fvs = sorted(core.fv, key=lambda v: v.data + str(v.sort))
        m = {v: Var("\u00a7%d" % n, v.sort) for n, v in enumerate(fvs)}
        shape = subst(core, m)
        key = ("pos", shape)
        new = key not in self.consts and key not in self.funs
        k = self.app(key, [self.t(v, env) for v in fvs], [v.sort for v in fvs], INT)
        if new:
            qs = [z3.Const("q%d_%d" % (next(self.nbind), n), self.sort(v.sort)) for n, v in enumerate(fvs)]
            e = dict(zip(fvs, qs))
            kk = self.app(key, qs, [v.sort for v in fvs], INT)
            s = self.t(src, e); self.seq(src)
            nth, ln = self.nth(src.sort), self.len(src.sort)
            n = next(self.nbind)
            i, j = z3.Const("ci%d" % n, z3.IntSort()), z3.Const("cj%d" % n, z3.IntSort())
            at = lambda p: self.t(cond, {**e, bs[0]: nth(s, p), **({bs[1]: p} if len(bs) > 1 else {})})
            other = z3.And(j >= 0, j < ln(s), j < kk if t.op == "First" else j > kk)
            ax = z3.Implies(z3.Exists([i], z3.And(i >= 0, i < ln(s), at(i))),
                            z3.And(kk >= 0, kk < ln(s), at(kk), z3.ForAll([j], z3.Implies(other, z3.Not(at(j))))))
            self.axioms.append(z3.ForAll(qs, ax) if qs else ax)
        s = self.t(src, env)
        return self.t(val, {**env, bs[0]: self.nth(src.sort)(s, k), **({bs[1]: k} if len(bs) > 1 else {})})

    def mem(self, s): return self.fun(("mem", s), s, s[1], BOOL)
    def len(self, s): return self.fun(("len", s), s, INT)
    def nth(self, s): return self.fun(("nth", s), s, INT, s[1])

    def lang_atom(self, s, d, env):
        k = "L" + d.digest()
        _LANGS[k] = d
        p = self.fun(("in", k), STR, BOOL)
        self.pending.append((s, k))
        return p(self.t(s, env))

    def order(self):
        if "order" in self.facts_done: return
        self.facts_done.add("order")
        f = self.fun(("strlt",), STR, STR, BOOL)
        S_ = self.sort(STR)
        x, y, w = z3.Consts("ox oy ow", S_)
        self.axioms += [z3.ForAll([x], z3.Not(f(x, x))),
                        z3.ForAll([x, y, w], z3.Implies(z3.And(f(x, y), f(y, w)), f(x, w))),
                        z3.ForAll([x, y], z3.Or(f(x, y), x == y, f(y, x)))]

    def seq(self, s):
        self.seen_seq[s.sort] = True

    def finish(self):
        """axioms for what was used"""
        ax = list(self.axioms)
        # languages: each predicate family is consistent for every string
        keys = sorted({k for _, k in self.pending})
        flds = []
        x = z3.Const("lx", self.sort(STR))
        if keys:
            fl = {}
            for s, k in self.pending:
                d = field_lang(s)
                if d is not None:
                    kk = "L" + d.digest(); _LANGS[kk] = d
                    fl.setdefault(kk, []).append(s)
            allk = sorted(set(keys) | set(fl))
            groups = [allk[i:i + 7] for i in range(0, len(allk), 7)] if len(allk) > 7 else [allk]
            if len(allk) > 7:
                groups = [list(p) for p in itertools.combinations(allk, 3)]
            for g in groups:
                vs = _sign_vectors(tuple(g))
                fs = [self.fun(("in", k), STR, BOOL) for k in g]
                body = z3.Or(*[z3.And(*[f(x) if b else z3.Not(f(x)) for f, b in zip(fs, v)]) for v in vs])
                ax.append(z3.ForAll([x], body, patterns=[fs[0](x)] if len(fs) == 1 else [f(x) for f in fs]) if len(fs) > 1 else z3.ForAll([x], body, patterns=[fs[0](x)]))
                for v, c in self.strs.items():
                    for k, f in zip(g, fs):
                        ax.append(f(c) if _LANGS[k].accepts(v) else z3.Not(f(c)))
            for kk, ss in fl.items():
                f = self.fun(("in", kk), STR, BOOL)
                for s in ss:
                    if s.op == "Fld" and s.args[0].sort in self.sorts:
                        r = z3.Const("rx", self.sort(s.args[0].sort))
                        i = [n for n, _ in REC_FIELDS[s.data[0]]].index(s.data[1])
                        acc = self.sort(s.args[0].sort).accessor(0, i)
                        ax.append(z3.ForAll([r], f(acc(r)), patterns=[acc(r)]))
        for srt in list(self.seen_seq):
            s = z3.Const("sx", self.sort(srt))
            i = z3.Const("six", z3.IntSort())
            v = z3.Const("svx", self.sort(srt[1]))
            mem, ln, nth = self.mem(srt), self.len(srt), self.nth(srt)
            ix = self.fun(("ixof", srt), srt, srt[1], INT)
            ax.append(z3.ForAll([s, v], z3.Implies(mem(s, v), z3.And(ln(s) > 0, ix(s, v) >= 0, ix(s, v) < ln(s), nth(s, ix(s, v)) == v)), patterns=[mem(s, v)]))
            ax.append(z3.ForAll([s, i], z3.Implies(z3.And(i >= 0, i < ln(s)), mem(s, nth(s, i))), patterns=[nth(s, i)]))
            ax.append(z3.ForAll([s], z3.And(ln(s) >= 0, z3.Implies(ln(s) > 0, mem(s, nth(s, 0)))), patterns=[ln(s)]))
        for key in list(self.funs):
            if key[0] == "SPrefix":
                srt = key[3]
                pf = self.funs[key]
                s, n, v = z3.Const("psx", self.sort(srt)), z3.Const("pnx", z3.IntSort()), z3.Const("pvx", self.sort(srt[1]))
                mem, nth, ln = self.mem(srt), self.nth(srt), self.len(srt)
                ix = self.fun(("pixof", srt), srt, INT, srt[1], INT)
                j = z3.Const("pjx", z3.IntSort())
                ax.append(z3.ForAll([s, n, v], z3.Implies(mem(pf(s, n), v), z3.And(ix(s, n, v) >= 0, ix(s, n, v) < n, ix(s, n, v) < ln(s), nth(s, ix(s, n, v)) == v)), patterns=[mem(pf(s, n), v)]))
                ax.append(z3.ForAll([s, n, j], z3.Implies(z3.And(j >= 0, j < n, j < ln(s)), mem(pf(s, n), nth(s, j))), patterns=[z3.MultiPattern(pf(s, n), nth(s, j))]))
        if len(self.strs) > 1: ax.append(z3.Distinct(*self.strs.values()))
        return ax


def z3_check(hyps, goal, ms=4000):
    z = Z()
    env = {}
    fs = [z.t(h, env) for h in hyps]
    g = z.t(goal, env)
    s = z3.Solver()
    s.set("timeout", ms)
    s.set("random_seed", 7)
    for a in z.finish(): s.add(a)
    for f in fs: s.add(f)
    s.add(z3.Not(g))
    t0 = time.time()
    r = s.check()
    STATS["z3_s"] += time.time() - t0
    STATS["z3"] += 1
    return str(r)


# ------------------------------------------------------------------ decomposition
def first_ite(t, bound=frozenset()):
    """a condition to split on, outside binder scopes"""
    if t.op == "Ite" and t.sort != BOOL: return t.args[0]
    if t.op in ir.BINDERS: return first_ite(t.args[0])
    for a in t.args:
        c = first_ite(a)
        if c is not None: return c
    return None


MAXDEPTH = 60


def prove(hyps, goal, depth=0):
    """raises Open when a subgoal cannot be closed"""
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]: raise Open("time", hyps, goal)
    if goal is TRUE: STATS["syntactic"] += 1; return
    lits = saturate(hyps)
    if lits is None: STATS["syntactic"] += 1; return
    m = hyp_map(lits)
    goal = simp(goal, m, {})
    goal = simp(goal, m, {})
    if goal is TRUE: STATS["syntactic"] += 1; return
    if depth > MAXDEPTH: raise Open("depth", lits, goal)
    if goal.op == "And":
        for g in goal.args: prove(lits, g, depth + 1)
        return
    if goal.op == "Not" and goal.args[0].op == "Or":
        for g in goal.args[0].args: prove(lits, Not(g), depth + 1)
        return
    if goal.op == "Or":
        # prove one disjunct under the negation of the others; containers need decomposition
        eqs = [g for g in goal.args if g.op == "Eq" and big(g.args[0])] or [g for g in goal.args if g.op == "Not" and g.args[0].op == "Ex"]
        if len(eqs) >= 1:
            others = [Not(g) for g in goal.args if g is not eqs[-1]]
            prove(lits + others, eqs[-1], depth + 1)
            return
    if goal.op == "Not" and goal.args[0].op == "Ex":
        # intro: an arbitrary element
        t = goal.args[0]
        h, p = open_binder(t, t.args[1])
        ps = lits_of([p])
        eqs = [q for q in ps if q.op == "Not" and q.args[0].op == "Eq" and first_ite(q.args[0]) is not None]
        if len(eqs) == 1: prove(lits + h + [q for q in ps if q is not eqs[0]], eqs[0].args[0], depth + 1)
        else: prove(lits + h + [p], FALSE, depth + 1)
        return
    if goal.op == "Eq" and goal.args[0].sort == BOOL:
        a, b = goal.args
        if a.op == b.op == "NonEmpty" or a.op == b.op == "App" and a.data == b.data:
            try: eq(lits, a.args[0], b.args[0], depth) if a.op == "NonEmpty" else eq(lits, a, b, depth); return
            except Open: pass
        prove(lits + [a], b, depth + 1)
        prove(lits + [b], a, depth + 1)
        return
    if goal.op == "Eq" and big(goal.args[0]):
        try: eq(lits, goal.args[0], goal.args[1], depth); return
        except Open:
            # perhaps what is assumed cannot be
            if not any(h.op == "Ex" for h in lits): raise
    if goal.op == "Eq":
        a, b = goal.args
        if strings.is_group(a) and strings.is_group(b):
            eq(lits, a, b, depth); return
        if a.op == b.op and a.op in ("First", "Last", "Sum", "MinOf", "SNth", "MGet", "App", "StrFlat", "StrOp", "HashOf", "StrJoin") and a.data is not None or a.op == b.op == "StrFlat":
            try: eq(lits, a, b, depth); return
            except Open: pass
    # existential hypotheses: open them
    if depth > 2 and any(h.op == "Ex" for h in lits) and first_ite(goal) is None and z3_check(lits, goal, 400) == "unsat": return
    for h in lits:
        if h.op == "Ex" and h not in _OPENED.get(id(hyps), ()):
            hh, p = open_first(h, lits, goal) or open_binder(h, h.args[1])
            rest = [l for l in lits if l is not h]
            prove(rest + hh + [p], goal, depth + 1)
            return
    c = first_ite(goal)
    if c is not None and c is not TRUE and c is not FALSE:
        prove(lits + [c], goal, depth + 1)
        prove(lits + [Not(c)], goal, depth + 1)
        return
    if congruent(lits, goal, depth): return
    for h in lits + [Not(goal)]:
        if h.op == "Dup" and h.args[0].op in ("SComp", "SCat", "SDedup", "SLit", "SUntil") and h not in _TRYING:
            _TRYING.add(h)
            try: no_dup([l for l in lits if l is not h], h.args[0], h.data[0][0], h.args[1], depth + 1); return
            except Open: pass
            finally: _TRYING.discard(h)
    r = z3_check(lits, goal, 1000 if any(h.op == "Or" and any(a.op == "Ex" for a in h.args) for h in lits) else 4000)
    if r != "unsat":
        for h in lits:
            if h.op == "Or" and any(a.op == "Ex" for a in h.args):
                rest = [l for l in lits if l is not h]
                for a in h.args: prove(rest + [a], goal, depth + 1)
                return
        STATS["open"] += 1
        raise Open("z3: " + r, lits, goal)


_TRYING: set = set()


def no_dup(hyps, src, x, key, depth):
    """no two positions of src have the same key; raises Open"""
    lits = saturate(hyps)
    if lits is None: return
    if depth > MAXDEPTH: raise Open("depth", lits, Not(ir.Dup(x, src, key)))
    src = simp(src, hyp_map(lits), {})
    d = ir.Dup(x, src, key)
    if d is FALSE or Not(d) in lits: STATS["syntactic"] += 1; return
    c = top_ite(src)
    if c is not None:
        for h in (c, Not(c)):
            l2 = saturate(lits + [h])
            if l2 is not None: no_dup(l2, simp(src, hyp_map(l2), {}), x, key, depth + 1)
        return
    if d.op != "Dup" or d.args[0] is not src or d.args[1] is not key:
        if d.op == "Dup": return no_dup(lits, d.args[0], d.data[0][0], d.args[1], depth + 1)
        return prove(lits, Not(d), depth + 1)
    def member(s, name):
        v = fresh(name, s.sort[1])
        return v, [f for f in (SMem(s, v),) if f is not TRUE]
    def apart(s, t, concl=FALSE, extra=()):
        a, ha = member(s, "a")
        b, hb = member(t, "b")
        prove(lits + list(extra) + ha + hb + [Eq(subst(key, {x: a}), subst(key, {x: b}))], concl, depth + 1)
    if src.op == "SComp" and len(src.data[0]) == 1:
        y, (over, body) = src.data[0][0], src.args
        no_dup(lits, over, y, y, depth + 1)
        u, hu = member(over, "u")
        no_dup(lits + hu, subst(body, {y: u}), x, key, depth + 1)
        v, hv = member(over, "v")
        apart(subst(body, {y: u}), subst(body, {y: v}), Eq(u, v), hu + hv)
        return
    if src.op in ("SCat", "SLit"):
        parts = [q for p in ir._cat_parts(src) for q in ir._cat_parts(p)] if src.op == "SCat" else [ir.SLit(src.sort[1], a) for a in src.args]
        for i, p in enumerate(parts):
            no_dup(lits, p, x, key, depth + 1)
            for q in parts[:i]: apart(q, p)
        return
    if key is not x and (Not(ir.Dup(x, src, x)) in lits or ir.Dup(x, src, x) is FALSE):
        a, ha = member(src, "a")
        b, hb = member(src, "b")
        prove(lits + ha + hb + [Eq(subst(key, {x: a}), subst(key, {x: b}))], Eq(a, b), depth + 1)
        return
    if z3_check(lits, Not(d), 400) == "unsat": return
    raise Open("repeated", lits, Not(d))


def by_members(hyps, a, b, depth):
    k = ("sorted", a, b)
    if k in _TRYING: return False
    _TRYING.add(k)
    try: same_sorted(hyps, a, b, depth); return True
    except Open: return False
    finally: _TRYING.discard(k)


def same_sorted(hyps, a, b, depth):
    """both are the one sorted list of a set of different things; raises Open"""
    s = a if a.op == "SSort" else b
    z, k, rev = s.data[0][0], s.args[1], s.data[1]
    def base(t):
        if t.op == "SSort" and t.data[1] == rev and subst(t.args[1], {t.data[0][0]: z}) is k: return t.args[0]
        if not rev and ir.SSort(z, t, k) is t: return t
        raise Open("not sorted the same way", hyps, Eq(a, b))
    A, B = base(a), base(b)
    x = fresh("m", z.sort)
    def mem(s): return [f for f in (SMem(s, x),) if f is not TRUE]
    prove(hyps + mem(A), SMem(B, x), depth + 1)
    prove(hyps + mem(B), SMem(A, x), depth + 1)
    if k is not natkey(z):
        y = fresh("m", z.sort)
        prove(hyps + mem(A) + [f for f in (SMem(A, y),) if f is not TRUE] + [Eq(subst(k, {z: x}), subst(k, {z: y}))], Eq(x, y), depth + 1)
    no_dup(hyps, A, z, z, depth + 1)
    no_dup(hyps, B, z, z, depth + 1)


def atom(t): return (t.args[0], False) if t.op == "Not" else (t, True)


def application(t):
    """the App an atom is about, if that is all it is about"""
    u = t.args[0] if t.op in ("NonEmpty", "IsSome") else t
    return u if u.op == "App" else None


def congruent(lits, goal, depth):
    """the goal is said of a function's result, and so is a hypothesis, for arguments that are the same"""
    if depth > 40: return False
    apps = [(atom(h), application(atom(h)[0])) for h in lits]
    apps = [(a, u) for a, u in apps if u is not None]
    if goal is FALSE: pairs = [(x, y) for x in apps for y in apps if x[0][1] and not y[0][1]]
    else:
        g, u = atom(goal), application(atom(goal)[0])
        if u is None: return False
        pairs = [((g, u), y) for y in apps if y[0][1] == g[1]]
    n = 0
    for (a, u), (b, v) in pairs:
        if a[0].op != b[0].op or u.data != v.data or u is v or len(u.args) != len(v.args): continue
        n += 1
        if n > 4: return False
        try:
            for x, y in zip(u.args, v.args): prove(lits, Eq(x, y), depth + 20)
            return True
        except Open: pass
    return False


_OPENED: dict = {}


def big(t):
    s = t.sort
    return isinstance(s, tuple) and s[0] in ("Seq", "Map", "Set", "Opt", "Tup", "Rec") or t.op in ("StrFlat", "StrJoin", "StrCat", "App", "First", "Last", "MinOf", "Sum")


def open_binder(t, body):
    """fresh names for the bound variables: (hypotheses about them, instantiated body)"""
    b = t.data[0]
    x = fresh("e", b[0].sort)
    m = {b[0]: x}
    h = [SMem(t.args[0], x)]
    if len(b) > 1:
        i = fresh("n", INT)
        m[b[1]] = i
        h += [Eq(x, SNth(t.args[0], i)), Not(Lt(i, I(0))), Lt(i, SLen(t.args[0]))]
    return [q for q in h if q is not TRUE], subst(body, m)


def choices(ts):
    """the first or last items satisfying a condition that the terms speak about"""
    todo, seen, out = list(ts), set(), []
    while todo:
        t = todo.pop()
        if t in seen: continue
        seen.add(t); todo.extend(t.args)
        if t.op in ("First", "Last") and len(t.data[0]) == 1 and t.args[2] is t.data[0][0]: out.append(t)
    return out


def occurs(f, ts):
    seen, todo = set(), list(ts)
    while todo:
        t = todo.pop()
        if t is f: return True
        if t in seen: continue
        seen.add(t); todo.extend(t.args)
    return False


def open_first(h, lits, goal):
    """a hypothesis and goal that speak about the first such element: that element is the witness"""
    if len(h.data[0]) > 1: return None
    x = h.data[0][0]
    f = ir.First(x, None, h.args[0], h.args[1], x)
    if f.op != "First" or not occurs(f, lits + [goal]): return None
    return [SMem(h.args[0], f)], subst(h.args[1], {x: f})


def eq(hyps, a, b, depth):
    if a is b: STATS["syntactic"] += 1; return
    c = top_ite(a)
    if c is None: c = top_ite(b)
    if c is not None:
        for h in (c, Not(c)):
            lits = saturate(hyps + [h])
            if lits is None: STATS["syntactic"] += 1; continue
            m = hyp_map(lits)
            a2, b2 = simp(a, m, {}), simp(b, m, {})
            prove(lits, VEq(a2, b2) if isinstance(a2.sort, tuple) and a2.sort[0] in ("Set", "Map") else Eq(a2, b2), depth + 1)
        return
    if a.op == b.op == "SSort" and a.args[0] is b.args[0] and a.args[1] is not b.args[1] and len(getattr(a.args[1], "args", ())) != len(b.args[1].args):
        a2, b2 = sort_ties(hyps, a), sort_ties(hyps, b)
        if a2 is not a or b2 is not b:
            eq(hyps, a2, b2, depth + 1); return
    alike = a.op == b.op == "SSort" and a.args[0].op == b.args[0].op and a.args[0].op != "Var"
    if (a.op == "SSort" or b.op == "SSort") and not alike and by_members(hyps, a, b, depth): return
    # orient:  both opaque, same operator -> argument-wise
    binder = a.op in ir.BINDERS and a.op == b.op and [x.sort for x in a.data[0]] == [x.sort for x in b.data[0]] and a.data[1:] == b.data[1:]
    if a.op == b.op and (a.data == b.data or binder) and len(a.args) == len(b.args) and a.op not in ("Var", "Const"):
        if binder:
            try:
                veq_args(hyps, a.args[0], b.args[0], depth)
                bs = a.data[0]
                x = fresh("e", bs[0].sort)
                m = {bs[0]: x}
                h = [SMem(a.args[0], x)]
                if len(bs) > 1:
                    i = fresh("n", INT)
                    m[bs[1]] = i
                    h += [Eq(x, SNth(a.args[0], i)), Not(Lt(i, I(0))), Lt(i, SLen(a.args[0]))]
                h = [q for q in h if q is not TRUE]
                for u, v in zip(a.args[1:], b.args[1:]):
                    u2, v2 = subst(u, m), subst(v, dict(zip(b.data[0], [m[y] for y in bs])))
                    if u2 is v2: STATS["syntactic"] += 1; continue
                    prove(hyps + h, Eq(u2, v2), depth + 1)
                    if a.op == "MinOf" and u is a.args[1] and u2.sort == BOOL: h = h + [u2]   # only the items under the guard count
                return
            except Open as e:
                err = e
        else:
            try:
                for u, v in zip(a.args, b.args): veq_args(hyps, u, v, depth)
                return
            except Open as e: err = e
    elif a.op in ("SCat", "SLit") and b.op in ("SCat", "SLit") and a.sort[0] == "Seq":
        pa, pb = ir._cat_parts(a), ir._cat_parts(b)
        pa = [y for x in pa for y in ir._cat_parts(x)]; pb = [y for x in pb for y in ir._cat_parts(x)]
        if len(pa) == len(pb):
            for u, v in zip(pa, pb): veq_args(hyps, u, v, depth)
            return
        err = Open("different shapes", hyps, Eq(a, b))
    else: err = Open("different shapes", hyps, Eq(a, b))
    if isinstance(a.sort, tuple) and a.sort[0] in ("Tup", "Rec"):
        if a.sort[0] == "Tup":
            for i in range(len(a.sort[1])): veq_args(hyps, Proj(i, a), Proj(i, b), depth)
            return
    if a.op == b.op == "SSort" and alike and by_members(hyps, a, b, depth): return
    if strings.is_group(a) and strings.is_group(b) and a.args == b.args:
        ls = []
        for h in saturate(hyps) or []:
            al = atom_lang(h.args[0] if h.op == "Not" else h)
            if al is not None and al[0] is a.args[0]: ls.append((al[1], h.op != "Not"))
        if strings.same_group(ls, a, b): return
    # with more to be said about what is assumed, prove() goes on
    r = z3_check(hyps, mk("Eq", (a, b) if a.uid < b.uid else (b, a), BOOL), 300 if any(h.op == "Ex" for h in hyps) else 4000)
    if r == "unsat": return
    STATS["open"] += 1
    raise err


def holds(hyps, goal):
    try: prove(hyps, goal); return True
    except Open: return False


def contiguous(hyps, src, x, key):
    """equal keys stand next to each other in src"""
    c = ir.Contig(ir.smap(src, lambda v: subst(key, {x: v})))
    if c is TRUE or c in hyps: return True
    if src.op == "SSort" and not src.data[1]:
        base, k1, z = src.args[0], src.args[1], src.data[0][0]
        u, v = fresh("u", x.sort), fresh("v", x.sort)
        h = [f for f in (SMem(base, u), SMem(base, v)) if f is not TRUE]
        same_key = Eq(subst(key, {x: u}), subst(key, {x: v}))
        same_ord = Eq(subst(k1, {z: u}), subst(k1, {z: v}))
        # the sort keeps equal keys within one class of ties ...
        if not ir._determines(x, key, subst(k1, {z: x})) and not holds(list(hyps) + h + [same_key], same_ord): return False
        # ... and a class of ties has one key only, or keeps the order of a sequence where they are together
        return contiguous(hyps, base, x, key) or holds(list(hyps) + h + [same_ord], same_key)
    return False


def sort_ties(hyps, t):
    """the sort key of t without the components that its earlier components determine"""
    src, key, x = t.args[0], t.args[1], t.data[0][0]
    if key.op != "MkTup": return t
    u, v = fresh("u", x.sort), fresh("v", x.sort)
    h = list(hyps) + [f for f in (SMem(src, u), SMem(src, v)) if f is not TRUE]
    keep = []
    for k in key.args:
        same = Eq(subst(k, {x: u}), subst(k, {x: v}))
        if keep and holds(h, same): continue
        keep.append(k); h.append(same)
    return ir.SSort(x, src, ir.MkTup(*keep) if len(keep) > 1 else keep[0], t.data[1]) if len(keep) < len(key.args) else t


def veq_args(hyps, u, v, depth):
    if u is v: STATS["syntactic"] += 1; return
    prove(hyps, Eq(u, v), depth + 1)


def top_ite(t):
    if t.op == "Ite": return t.args[0]
    if t.op in ir.BINDERS: return top_ite(t.args[0])
    if t.op in ("SCat", "SLit", "MOf", "SetOf", "MkTup", "MkRec", "Some", "SNth", "SSort", "StrCat", "SOrdU", "StrFlat", "App"):
        for a in t.args:
            c = top_ite(a)
            if c is not None: return c
    return None
