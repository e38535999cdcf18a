"""Loops without a bound: the body is executed once on a generic element, with every location it can
modify replaced by an arbitrary value, and the recurrence that comes out is closed into comprehension
terms (append -> SComp, add -> SetOf, flag -> Ex/All, counter -> Sum, dict update -> MOf/MGroup, ...).

A recurrence that matches no closing rule makes the function Unsupported; it is never approximated."""
from __future__ import annotations
from . import ir
from .ir import *
from .ir import replace
from .interp import (Unsupported, PyRaise, Ret, Brk, Cont, Infeasible, Cell, Sub, Obj, Iter, Stale, Env, join_borrows, Raw, MObj, Outcome, _MISSING)

BOOK = ("frozen", "borrows", "shares")
USED = __import__("collections").Counter()


# ------------------------------------------------------------------ source decomposition
def run_loop(it, src, body, names=(), env=None):
    """True when left by break"""
    if src.op == "SLit":
        for v in src.args:
            try: body(it.view(v))
            except Brk: return True
            except Cont: pass
        return False
    if src.op == "SCat":
        for p in src.args:
            if run_loop(it, p, body, names, env): return True
        return False
    if src.op == "Ite":
        m = at_most_one(src)
        if m is not None:
            if not it.branch(m[0]): return False
            return run_loop(it, m[1], body, names, env)
        if it.branch(src.args[0]): return run_loop(it, given(src.args[1], src.args[0]), body, names, env)
        return run_loop(it, given(src.args[2], Not(src.args[0])), body, names, env)
    if src.op == "SComp":
        bs = src.data[0]
        inner0 = src.args[1]
        base = src.args[0]
        def outer(v, i):
            tv = it.as_term(v, bs[0].sort)
            inner = subst(inner0, {bs[0]: tv, **({bs[1]: i} if len(bs) > 1 else {})})
            if run_loop(it, inner, body, names, env): raise Brk()
        return generic(it, base, outer, want_i=len(bs) > 1)
    if src.op == "SRange" and src.args[0].op == "SLen":
        # positions of a sequence: walk the sequence, with the position
        return generic(it, src.args[0].args[0], lambda v, i: body(i), want_i=True)
    return generic(it, src, lambda v, i: body(v))


def given(t, c):
    """t where c holds"""
    if c.op == "Not": t = replace(t, c.args[0], FALSE)
    else: t = replace(t, c, TRUE)
    if c.op == "And":
        for a in c.args: t = given(t, a)
    return t


def at_most_one(t):
    """(condition, one-element sequence) of a large case distinction between a one-element sequence and the empty one"""
    leaves = set()
    n = [0]
    def walk(u):
        n[0] += 1
        if u.op == "Ite": return walk(u.args[1]) and walk(u.args[2])
        if u.op != "SLit" or len(u.args) > 1: return False
        leaves.add(u)
        return True
    if not walk(t) or n[0] < 7 or len([u for u in leaves if u.args]) > 2: return None
    def cond(u):
        if u.op == "Ite": return Ite(u.args[0], cond(u.args[1]), cond(u.args[2]))
        return B(bool(u.args))
    full = [u for u in leaves if u.args]
    if len(full) == 1: return cond(t), full[0]
    def elem(u):
        """None: no element"""
        if u.op == "Ite":
            a, b = elem(u.args[1]), elem(u.args[2])
            if a is None or b is None: return a if b is None else b
            return a if a is b else Ite(u.args[0], a, b)
        return u if u.args else None
    return cond(t), elem(t)


def generic(it, src, body, want_i=False):
    if src.op in ("SLit",):
        for n, v in enumerate(src.args):
            try: body(it.view(v), I(n))
            except Brk: return True
            except Cont: pass
        return False
    if src.op == "Ite":
        return generic(it, src.args[1] if it.branch(src.args[0]) else src.args[2], body, want_i)
    if src.op == "SComp" and not want_i:
        return run_loop(it, src, lambda v: body(v, None))
    if src.op == "SCat" and not want_i:
        for p in src.args:
            if generic(it, p, body, want_i): return True
        return False
    L = Loop(it, src, body)
    return L.run()


# ------------------------------------------------------------------ helpers
def subterms(t, pred, seen=None, out=None):
    if seen is None: seen, out = set(), []
    if t in seen: return out
    seen.add(t)
    if pred(t): out.append(t)
    for a in t.args: subterms(a, pred, seen, out)
    return out


def subst_val(it, v, m, memo=None):
    """substitute in a value; fresh copies of the containers created inside the iteration"""
    if memo is None: memo = {}
    if isinstance(v, Term): return subst(v, m)
    if id(v) in memo: return memo[id(v)]
    if isinstance(v, tuple): return tuple(subst_val(it, x, m, memo) for x in v)
    if isinstance(v, Cell) and getattr(v, "birth", 0) >= memo.get("birth", 0):
        c = Cell(v.kind, (), v.default, v.origin)
        memo[id(v)] = c
        c.d = {k: subst_val(it, x, m, memo) if k == "val" else x for k, x in v.d.items()}
        return c
    if isinstance(v, Iter) and v.birth >= memo.get("birth", 0):
        return Iter(subst_val(it, v.d["seq"], m, memo))
    if isinstance(v, Obj) and v.birth >= memo.get("birth", 0):
        o = Obj(v.cls, {}, v.origin)
        memo[id(v)] = o
        o.d = {k: subst_val(it, x, m, memo) for k, x in v.d.items()}
        return o
    if isinstance(v, Sub):
        return Sub(subst_val(it, v.parent, m, memo), (v.path[0], subst(v.path[1], m) if isinstance(v.path[1], Term) else v.path[1]), v.sort)
    return v


def decision_tree(paths, leaf_default=None):
    """paths: [(pc list, leaf term)] -> one term"""
    def go(ps, k):
        if len(ps) == 1: return ps[0][1]
        if all(l is ps[0][1] for _, l in ps): return ps[0][1]
        if any(k >= len(pc) for pc, _ in ps): return chain(ps)
        c = ps[0][0][k]
        if all(pc[k] is c for pc, _ in ps): return go(ps, k + 1)
        n = Not(c)
        yes = [p for p in ps if p[0][k] is c]
        no = [p for p in ps if p[0][k] is n]
        if len(yes) + len(no) != len(ps): return chain(ps)
        return Ite(c, go(yes, k + 1), go(no, k + 1))
    def chain(ps):
        r = ps[-1][1]
        for pc, l in reversed(ps[:-1]): r = Ite(And(*pc), l, r)
        return r
    return go(paths, 0)


def flat_ite(t, conds=()):
    if t.op == "Ite":
        c = t.args[0]
        yield from flat_ite(t.args[1], conds + (c,))
        yield from flat_ite(t.args[2], conds + (Not(c),))
    else: yield conds, t


def flat_paths(t, conds=()):
    if t.op == "Ite":
        yield from flat_paths(t.args[1], conds + (t.args[0],))
        yield from flat_paths(t.args[2], conds + (Not(t.args[0]),))
    else: yield list(conds), t


def tree_of(t):
    """case distinctions outside the updates"""
    ls = list(map_leaves(t))
    return decision_tree([(list(c), l) for c, l in ls]) if len(ls) > 1 else ls[0][1]


def map_leaves(t, conds=()):
    """cases of a map update with every choice moved to the outside"""
    if t.op == "Ite":
        yield from map_leaves(t.args[1], conds + (t.args[0],))
        yield from map_leaves(t.args[2], conds + (Not(t.args[0]),))
        return
    if t.op == "MOf":
        for c, s in seq_leaves(t.args[0]): yield conds + c, MOf(s)
        return
    yield conds, t


def seq_leaves(s):
    if s.op == "Ite":
        for k, br in ((s.args[0], s.args[1]), (Not(s.args[0]), s.args[2])):
            for c, l in seq_leaves(br): yield (k,) + c, l
    elif s.op == "SCat":
        def go(ps):
            if not ps: yield (), []; return
            for c1, l1 in seq_leaves(ps[0]):
                for c2, l2 in go(ps[1:]): yield c1 + c2, [l1] + l2
        for c, ls in go(list(s.args)): yield c, SCat(s.sort[1], *ls)
    elif s.op == "SLit" and len(s.args) == 1 and s.args[0].op == "MkTup":
        k, v = s.args[0].args
        for c, l in (map_leaves(v) if isinstance(v.sort, tuple) and v.sort[0] == "Map" else flat_ite(v)):
            yield c, SLit(s.sort[1], MkTup(k, l))
    else: yield (), s


def consistent(conds):
    ss = set()
    for c in conds:
        for l in (c.args if c.op == "And" else (c,)):
            if Not(l) in ss: return False
            ss.add(l)
    return True


def drop_state(tree, h):
    """the updates must not depend on whether the key was there: both ways record the same contribution"""
    if h not in tree.fv: return tree
    if tree.op == "Ite":
        a, b = drop_state(tree.args[1], h), drop_state(tree.args[2], h)
        if a is None or b is None: return None
        if a is b: return a
        if h in tree.args[0].fv: return None
        return Ite(tree.args[0], a, b)
    return None


def every(it, s, x):
    """what is known of every item of s, said of x"""
    out = []
    for p in it.pc:
        for q in (p.args if p.op == "And" else (p,)):
            if q.op == "Not" and q.args[0].op == "Ex" and q.args[0].args[0] is s and len(q.args[0].data[0]) == 1:
                f = Not(subst(q.args[0].args[1], {q.args[0].data[0][0]: x}))
                if ir.size(f) < 200: out.append(f)
    return out


class Loc:
    def __init__(self, obj, key):
        self.obj, self.key = obj, key
        self.init = obj.d.get(key, _MISSING)
        self.kind = None       # local | cell | scalar | rebind | stale
        self.sort = None
        self.h = None
        self.hval = None
        self.F = None
        self.samelen = None

    def name(self):
        if isinstance(self.obj, Env): return self.key
        return "%s" % (getattr(self.obj, "kind", None) or type(self.obj).__name__)


class Loop:
    def __init__(self, it, src, body):
        self.it, self.src, self.body = it, src, body
        self.x = fresh("x", src.sort[1])
        self.i = fresh("i", INT)
        ir.NTH_ALIAS[(src, self.i)] = self.x
        self.locs = {}

    # -------------------------------------------------------- exploration
    def run(self):
        it = self.it
        outs = None
        for _ in range(8):
            outs, changed = self.trial()
            if not changed: break
        else: raise Unsupported("loop summary does not stabilise")
        normal = [o for o in outs if o.kind == "normal"]
        ab = [o for o in outs if o.kind != "normal"]
        self.solve(normal)
        if any(o.kind in ("break", "return", "raise") for o in ab): return self.exits(ab, outs)
        self.install(self.src, outs)
        return False

    def trial(self):
        it = self.it
        mark, pcm = len(it.journal), len(it.pc)
        try:
            for L in self.locs.values(): self.havoc(L)
            for f in self.elem_facts(): it.pc.append(f)
            it.elements.append((self.x, self.src))
            def step():
                return self.body(it.view(self.x), self.i)
            outs = it.explore(step)
        finally:
            if it.elements and it.elements[-1][0] is self.x: it.elements.pop()
            it.undo(mark)
            del it.pc[pcm:]
        changed = False
        for o in outs:
            for (obj, key), v in o.writes.items():
                if key in BOOK: continue
                if (obj, key) not in self.locs:
                    # what every iteration puts back stays as it was
                    v0 = obj.d.get(key, _MISSING)
                    if all(unchanged(o2.writes.get((obj, key), v0), v0) for o2 in outs if o2.kind not in ("break", "return", "raise")): continue
                    self.locs[(obj, key)] = Loc(obj, key)
                    changed = True
        for (obj, key), L in self.locs.items():
            if self.classify(L, [o.writes[(obj, key)] for o in outs if (obj, key) in o.writes]): changed = True
        return outs, changed

    def elem_facts(self):
        s, x = self.src, self.x
        if self.it.opq: s = self.it.unopq(s)
        out = []
        if s.op == "SKeys": out.append(MHas(s.args[0], x))
        elif s.op in ("SOfSet",): out.append(SMem(s, x))
        elif s.op in ("SSort", "SDedup", "SRev", "SUntil"):
            t = s
            while t.op in ("SSort", "SDedup", "SRev", "SUntil", "SPrefix"): t = t.args[0]
            f = SMem(t, x)
            if ir.size(f) < 80: out.append(f)
        elif s.op == "SRange":
            out += [Not(Lt(x, I(0))), Lt(x, s.args[0])]
        else: out.append(SMem(s, x))
        out += [Not(Lt(self.i, I(0))), Lt(self.i, SLen(s))]
        out += every(self.it, s, x)
        if s.op == "SOfSet" and s.args[0].op == "SetOf" and x.sort == INT:
            # positions of things known to be there
            t = s.args[0].args[0]
            if t.op == "SComp" and len(t.data[0]) == 1 and t.args[1].op == "SLit" and len(t.args[1].args) == 1 and t.args[1].args[0].op == "SIdx":
                p = t.data[0][0]
                pos = t.args[1].args[0]
                n = len(self.it.pc)
                self.it.pc += every(self.it, t.args[0], p)
                try: ok = self.it.known(SMem(*pos.args)) is True
                finally: del self.it.pc[n:]
                if ok and p not in pos.args[0].fv: out += [Not(Lt(x, I(0))), Lt(x, SLen(pos.args[0]))]
        return [f for f in out if f is not TRUE]

    def classify(self, L, finals):
        """sets kind/sort from the initial and final values; True when something changed"""
        it = self.it
        old = (L.kind, L.sort)
        v0 = L.init
        if isinstance(L.obj, Cell) and L.key == "val":
            L.kind = "cell"
            s = content_sort(it, L.obj.kind, v0)
            if L.sort is not None: s = it.unify(s, L.sort)
            for f in finals: s = it.unify(s, content_sort(it, L.obj.kind, f))
            L.sort = it.complete(s)
        elif isinstance(L.obj, Iter):
            raise Unsupported("an iterator from outside is consumed in the loop")
        elif v0 is _MISSING or isinstance(v0, Stale): L.kind = "local"
        elif L.kind == "local": pass
        elif isinstance(v0, (Term, bool)) or isinstance(v0, tuple):
            try:
                s = it.sort_of(v0)
                if L.sort is not None: s = it.unify(s, L.sort)
                for f in finals: s = it.unify(s, it.sort_of(f))
                L.sort = it.complete(s); L.kind = "scalar"
            except Unsupported: L.kind, L.sort = "local", None
        elif isinstance(v0, Cell) and all(isinstance(f, Cell) and f.kind == v0.kind for f in finals):
            L.kind = "rebind"
            s = it.sort_of(v0)
            if L.sort is not None: s = it.unify(s, L.sort)
            for f in finals: s = it.unify(s, it.sort_of(f))
            L.sort = it.complete(s)
        else: L.kind = "local"
        if (L.kind, L.sort) != old: return True
        # a list that keeps its length
        if L.samelen is None and L.h is not None and isinstance(L.sort, tuple) and L.sort[0] == "Seq" and finals:
            fs = [it.as_term(f, L.sort) for f in finals]
            L.samelen = all(all(l is L.h or l.op == "SUpd" for _, l in flat_ite(t)) and SLen(t) is SLen(L.h) for t in fs) and any(t is not L.h for t in fs)
            if L.samelen:
                L.h = fresh("h_" + str(L.name()), L.sort)
                ir.LEN_OF[L.h] = SLen(self.init_term(L))
                return True
        return False

    def havoc(self, L):
        it = self.it
        if L.kind == "local":
            it.write(L.obj, L.key, Stale("assigned in a loop")); return
        if L.h is None or L.h.sort != L.sort: L.h = fresh("h_" + str(L.name()), L.sort)
        if L.kind == "rebind":
            it.write(L.obj, L.key, Cell(L.init.kind, L.h, L.init.default))
        else: it.write(L.obj, L.key, L.h)

    # -------------------------------------------------------- solving
    def final_term(self, L, o):
        v = o.writes.get((L.obj, L.key), _MISSING)
        if v is _MISSING: return L.h
        if L.kind == "rebind": return self.it.as_term(v, L.sort)
        return self.it.as_term(v, L.sort)

    def init_term(self, L):
        return self.it.as_term(L.init, L.sort)

    def solve(self, normal):
        self.solved = {}
        todo = [L for L in self.locs.values() if L.kind != "local"]
        self.normal = normal
        for L in todo:
            L.deps = set()
            L.paths = [(o.pc, self.final_term(L, o)) for o in normal]
            L.tree = decision_tree(L.paths) if L.paths else L.h
        hs = {L.h: L for L in todo}
        progress, reduced = True, False
        while todo and (progress or not reduced):
            if not progress:
                # conditions that do not distinguish the values of a map are no dependencies of it
                reduced = True
                for L in todo:
                    if isinstance(L.sort, tuple) and L.sort[0] == "Map": L.paths = list(flat_paths(L.tree))
            progress = False
            for L in list(todo):
                deps = {hs[v] for v in L.tree.fv if v in hs and v is not L.h}
                if L.sort[0] == "Map" if isinstance(L.sort, tuple) else False:
                    for pc, t in L.paths:
                        for c in pc: deps |= {hs[v] for v in c.fv if v in hs and v is not L.h}
                if any(d.F is None for d in deps): continue
                m = {d.h: d.F(SPrefix(self.src, self.i)) for d in deps}
                L.tree = subst(L.tree, m)
                L.paths = [([subst(c, m) for c in pc], subst(t, m)) for pc, t in L.paths]
                L.F = self.closed(L)
                todo.remove(L); progress = True
        if todo: raise Unsupported("mutually dependent loop state: %s" % ", ".join(str(L.name()) for L in todo))

    def closed(self, L):
        T, h, x, i = L.tree, L.h, self.x, self.i
        init = self.init_term(L)
        if T is h: return lambda s: init
        if h not in T.fv:
            return self.last(L, TRUE, T, init)
        k = L.sort[0] if isinstance(L.sort, tuple) else L.sort
        f = {"Seq": self.c_seq, "Set": self.c_set, "Map": self.c_map, BOOL: self.c_bool, INT: self.c_int, STR: self.c_str}.get(k)
        r = f(L, T, h, init) if f else None
        if r is None: r = self.c_last(L, T, h, init)
        if r is None: raise Unsupported("no closed form for %s := %s" % (L.name(), ir.show(T)[:400]))
        return r

    def last(self, L, c, v, init):
        x, i = self.x, self.i
        USED["last"] += 1
        if c is TRUE and not (v.fv & {x, i}): return lambda s: Ite(NonEmpty(s), v, init)
        return lambda s: Ite(Ex(x, i, s, c), Last(x, i, s, c, v), init)

    def c_last(self, L, T, h, init):
        cs = []
        cond, val = FALSE, None
        for conds, leaf in flat_ite(T):
            if any(h in c.fv for c in conds): return None
            if leaf is h: continue
            if h in leaf.fv: return None
            cs.append((And(*conds), leaf))
        cond = Or(*[c for c, _ in cs])
        val = cs[-1][1]
        for c, v in reversed(cs[:-1]): val = Ite(c, v, val)
        return self.last(L, cond, val, init)

    # Seq
    def contrib(self, T, h, es):
        if T is h: return SEmpty(es)
        if T.op == "SCat" and T.args[0] is h: return SCat(es, *T.args[1:])
        if T.op == "Ite":
            a, b = self.contrib(T.args[1], h, es), self.contrib(T.args[2], h, es)
            if a is None or b is None: return None
            return Ite(T.args[0], a, b)
        return None

    def c_seq(self, L, T, h, init):
        es = L.sort[1]
        x, i = self.x, self.i
        C = self.contrib(T, h, es)
        if C is None:
            U = self.union_step(T, h, es)
            if U is not None:
                USED["union"] += 1
                return lambda s: SOrdU(init, SComp(x, i, s, U))
            U = self.fold_u(T, h, es)
            if U is None: return self.c_table(L, T, h, init, es)
            USED["extend-if-new"] += 1
            return lambda s: SFoldU(SCat(Seq(es), SLit(Seq(es), init), SComp(x, i, s, U)))
        if h not in C.fv:
            USED["append"] += 1
            return lambda s: SCat(es, init, SComp(x, i, s, C))
        return self.c_seq_more(L, T, h, init, es, C)

    def c_table(self, L, T, h, init, es):
        """h[position of K(x) among the keys] := f(itself)   ->  one recurrence per key"""
        x, i = self.x, self.i
        idx = None
        for conds, leaf in flat_ite(T):
            if leaf is h: continue
            if leaf.op != "SUpd" or leaf.args[0] is not h or (idx is not None and leaf.args[1] is not idx): return None
            idx = leaf.args[1]
        if idx is None or idx.op != "SIdx": return None
        keys, K = idx.args
        if keys.fv & {x, i, h} or h in K.fv: return None
        if not (keys.op == "SKeys" or keys.op == "SDedup" and keys.args[1] is keys.data[0][0]): return None
        if SLen(init) is not SLen(keys): return None
        w, k = fresh("at", es), fresh("k", keys.sort[1])
        def at(t): return replace(t, SNth(h, idx), w)
        def go(t):
            if t is h: return w
            if t.op == "Ite":
                a, b = go(t.args[1]), go(t.args[2])
                return Ite(at(t.args[0]), a, b)
            return at(t.args[2])
        T2 = go(T)
        if h in T2.fv: return None
        M = Loc(L.obj, L.key)
        M.sort, M.h, M.kind = es, w, L.kind
        M.init = SNth(init, SIdx(keys, k))
        M.tree = Ite(Eq(K, k), T2, w)
        M.paths = [([Eq(K, k)], T2), ([Not(Eq(K, k))], w)]
        try: F = self.closed(M)
        except Unsupported: return None
        USED["table"] += 1
        return lambda s: SComp(k, None, keys, SLit(es, F(s)))

    def c_seq_more(self, L, T, h, init, es, C):
        x, i = self.x, self.i
        # guards of the form  e in h
        mems = subterms(C, lambda t: t.op == "SMem" and t.args[0] is h)
        if len(mems) == 1:
            e = mems[0].args[1]
            C1 = replace(C, mems[0], TRUE)
            C0 = replace(C, mems[0], FALSE)
            if h in C0.fv: return None
            if C1.op == "SLit" and not C1.args and all(l.op == "SLit" and (not l.args or l.args == (e,)) for _, l in flat_ite(C0)):
                USED["append-if-new"] += 1
                return lambda s: SOrdU(init, SComp(x, i, s, C0))
        # first element only:  if not h: h.append(e)
        ne = NonEmpty(h)
        if ne in set(subterms(C, lambda t: t is ne)):
            C1, C0 = replace(C, ne, TRUE), replace(C, ne, FALSE)
            if h not in C0.fv and C1.op == "SLit" and not C1.args and all(l.op == "SLit" and len(l.args) <= 1 for _, l in flat_ite(C0)):
                def F(s):
                    u = SComp(x, i, s, C0)
                    return Ite(NonEmpty(init), init, Ite(NonEmpty(u), SLit(es, SNth(u, I(0))), SEmpty(es)))
                return F
        return None

    def union_step(self, T, h, es):
        if T is h: return SEmpty(es)
        if T.op == "SOrdU" and T.args[0] is h and h not in T.args[1].fv: return T.args[1]
        if T.op == "Ite" and h not in T.args[0].fv:
            a, b = self.union_step(T.args[1], h, es), self.union_step(T.args[2], h, es)
            return None if a is None or b is None else Ite(T.args[0], a, b)
        return None

    def fold_u(self, T, h, es):
        """h := h + u when h is empty, else h + the items of u that are new; the sequence of the u"""
        if h is T: return SEmpty(Seq(es))
        if T.op == "Ite" and h in T.args[0].fv:
            c, a, b = T.args
            if c is Not(NonEmpty(h)): a, b = b, a
            elif c is not NonEmpty(h): return None
            if a.op == "SOrdU" and a.args[0] is h and h not in a.args[1].fv and b is SCat(es, h, a.args[1]):
                return SLit(Seq(es), a.args[1])
            return None
        if T.op == "Ite":
            a, b = self.fold_u(T.args[1], h, es), self.fold_u(T.args[2], h, es)
            return None if a is None or b is None else Ite(T.args[0], a, b)
        return None

    # Set
    def contrib_set(self, T, h, es):
        if T is h: return SEmpty(es)
        if T.op == "Ite":
            a, b = self.contrib_set(T.args[1], h, es), self.contrib_set(T.args[2], h, es)
            return None if a is None or b is None else Ite(T.args[0], a, b)
        if T.op == "SetOf":
            s = T.args[0]
            return self.contrib_elems(s, h, es)
        return None

    def contrib_elems(self, s, h, es):
        hs = SOfSet(h)
        if s is hs: return SEmpty(es)
        if s.op == "SCat" and hs in s.args:
            p = list(s.args); p.remove(hs)
            return SCat(es, *p)
        if s.op == "Ite":
            a, b = self.contrib_elems(s.args[1], h, es), self.contrib_elems(s.args[2], h, es)
            return None if a is None or b is None else Ite(s.args[0], a, b)
        return None

    def c_set(self, L, T, h, init):
        es = L.sort[1]
        x, i = self.x, self.i
        C = self.contrib_set(T, h, es)
        if C is None: return None
        hs = SOfSet(h)
        for m in subterms(C, lambda t: t.op == "SMem" and t.args[0] is hs):
            C1, C0 = replace(C, m, TRUE), replace(C, m, FALSE)
            # adding an element that is already there changes nothing
            if C1.op == "SLit" and not C1.args and all(l.op == "SLit" and all(a is m.args[1] for a in l.args) for _, l in flat_ite(C0)):
                C = C0
        if h in C.fv: return None
        USED["set-add"] += 1
        return lambda s: SetOf(SCat(es, set_elems(init), SComp(x, i, s, C)))

    # Bool
    def c_bool(self, L, T, h, init):
        x, i = self.x, self.i
        t1, t0 = subst(T, {h: TRUE}), subst(T, {h: FALSE})
        if t1 is TRUE:
            USED["flag"] += 1
            return lambda s: Or(init, Ex(x, i, s, t0))
        if t0 is FALSE:
            USED["flag"] += 1
            return lambda s: And(init, Not(Ex(x, i, s, Not(t1))))
        return None

    # Int
    def c_int(self, L, T, h, init):
        x, i = self.x, self.i
        def inc(t):
            if t is h: return I(0)
            if t.op == "Add" and list(t.args).count(h) == 1:
                r = list(t.args); r.remove(h)
                return Add(*r)
            if t.op == "Ite":
                a, b = inc(t.args[1]), inc(t.args[2])
                return None if a is None or b is None else Ite(t.args[0], a, b)
            return None
        d = inc(T)
        if d is not None and h not in d.fv:
            USED["sum"] += 1
            return lambda s: Add(init, Sum(x, i, s, d))
        # minimum
        e, gs = None, []
        for conds, leaf in flat_ite(T):
            if leaf is h: continue
            if h in leaf.fv or (e is not None and e is not leaf): return None
            e = leaf
            lits = [l for c in conds for l in (c.args if c.op == "And" else (c,))]
            if Lt(e, h) not in lits: return None
            g = And(*[l for l in lits if l is not Lt(e, h)])
            if h in g.fv: return None
            gs.append(g)
        if e is not None and i not in T.fv:
            # (every other leaf keeps h, and the leaves are exhaustive)
            USED["minimum"] += 1
            return lambda s: MinOf(x, s, Or(*gs), e, init)
        return None

    # Str
    def c_str(self, L, T, h, init):
        from .lib import StrFlat
        x, i = self.x, self.i
        def app(t):
            if t is h: return SEmpty(STR)
            if t.op == "StrCat" and t.args[0] is h and not any(h in a.fv for a in t.args[1:]): return SLit(STR, *t.args[1:])
            if t.op == "Ite":
                a, b = app(t.args[1]), app(t.args[2])
                return None if a is None or b is None else Ite(t.args[0], a, b)
            return None
        C = app(T)
        if C is None or h in C.fv: return None
        return lambda s: StrCat(init, StrFlat(SComp(x, i, s, C)))

    # Map
    def c_map(self, L, T, h, init, own=False):
        """per path a list of updates (k, v)"""
        ks, vs = L.sort[1], L.sort[2]
        x, i = self.x, self.i
        ps = Tup(ks, vs)
        hp = pairs_of(h)
        paths = []
        allp = []
        r = self.c_regroup(T, h, init)
        if r is not None: return r
        for pc, t in L.paths:
            for conds, leaf in map_leaves(t):
                pc2 = list(pc) + [c for c in conds if c not in pc]
                if consistent(pc2): allp.append((pc2, leaf))
        for pc, t in allp:
            if t is h: paths.append((pc, [])); continue
            if t.op != "MOf": return None
            s = t.args[0]
            if not (s.op == "SCat" and s.args[0] is hp): return None
            rest = SCat(ps, *s.args[1:])
            if h not in rest.fv:
                paths.append((pc, [("assign", rest)])); continue
            if rest.op != "SLit": return None
            ups = []
            for p in rest.args:
                k, v = Proj(0, p), Proj(1, p)
                ups = [u for u in ups if u[0] is not k] + [(k, v)]
            paths.append((pc, ups))
        # (0) only the value at one fixed key, known to be there, changes
        r = self.c_fixed_key(L, allp, h, init) or self.c_new_key(L, T, h, init)
        if r is not None: return r
        # (1) plain assignments
        if all(all(u[0] == "assign" for u in ups) for pc, ups in paths):
            tree = decision_tree([(pc, SCat(ps, *[u[1] for u in ups])) for pc, ups in paths])
            if h not in tree.fv:
                USED["dict-assign"] += 1
                return lambda s: MOf(SCat(ps, pairs_of(init), SComp(x, i, s, tree)))
            hs = subterms(tree, lambda t: t.op == "MHas" and t.args[0] is h)
            if len(hs) == 1:
                k = hs[0].args[1]
                C1, C0 = replace(tree, hs[0], TRUE), replace(tree, hs[0], FALSE)
                if h not in C0.fv and C1.op == "SLit" and not C1.args and \
                   all(l.op == "SLit" and all(Proj(0, a) is k for a in l.args) and len(l.args) <= 1 for _, l in flat_ite(C0)):
                    y = fresh("p", ps)
                    USED["dict-setdefault"] += 1
                    return lambda s: MOf(SDedup(y, SCat(ps, pairs_of(init), SComp(x, i, s, C0)), Proj(0, y)))
        # (2) grouping: the value at k grows
        if isinstance(vs, tuple) and vs[0] in ("Seq", "Set", "Map"):
            r = self.c_group(L, paths, h, init, vs)
            if r is not None: return r
        return None if own else self.c_own_keys(L, T, h, init)

    def c_fixed_key(self, L, allp, h, init):
        x, i = self.x, self.i
        hp = pairs_of(h)
        key, ps = None, []
        for pc, t in allp:
            if t is h: v = None
            else:
                if t.op != "MOf": return None
                s = t.args[0]
                if not (s.op == "SCat" and s.args[0] is hp and all(a.op == "SLit" for a in s.args[1:])): return None
                ups = [p for a in s.args[1:] for p in a.args]
                if len({Proj(0, p) for p in ups}) != 1: return None
                if key is None: key = Proj(0, ups[0])
                if Proj(0, ups[0]) is not key: return None
                v = Proj(1, ups[-1])
            ps.append((pc, v))
        if key is None or key.fv & {x, i, h}: return None
        has = MHas(init, key)
        if has is not TRUE and has not in self.it.pc: return None
        w = fresh("at", L.sort[2])
        def at(t): return replace(replace(t, MGet(h, key), w), MHas(h, key), TRUE)
        ps = [([at(c) for c in pc], w if v is None else at(v)) for pc, v in ps]
        if any(h in c.fv for pc, v in ps for c in pc) or any(h in v.fv for pc, v in ps): return None
        M = Loc(L.obj, L.key)
        M.sort, M.h, M.paths, M.init, M.kind = L.sort[2], w, ps, MGet(init, key), L.kind
        M.tree = decision_tree(ps)
        try: F = self.closed(M)
        except Unsupported: return None
        USED["fixed-key"] += 1
        return lambda s: MUpd(init, key, F(s))

    def one_key(self, T, h):
        """the key of the only entry of h that T can change"""
        key = None
        for _, t in map_leaves(T):
            if t is h: continue
            if t.op != "MOf": return None
            s = t.args[0]
            if not (s.op == "SCat" and s.args[0] is pairs_of(h) and all(a.op == "SLit" for a in s.args[1:])): return None
            for a in s.args[1:]:
                for p in a.args:
                    if key is None: key = Proj(0, p)
                    if Proj(0, p) is not key: return None
        return key

    def c_new_key(self, L, T, h, init):
        """the value at one fixed key changes, starting from an empty container when there is none"""
        x, i, vs = self.x, self.i, L.sort[2]
        if not (isinstance(vs, tuple) and vs[0] in ("Seq", "Map")): return None
        T = tree_of(T)
        key = self.one_key(T, h)
        if key is None or key.fv & {x, i, h}: return None
        w, empty = fresh("at", vs), SEmpty(vs[1]) if vs[0] == "Seq" else MOf(SEmpty(Tup(vs[1], vs[2])))
        def value(t, old):
            """value at the key after the step"""
            if t.op == "Ite":
                a, b = value(t.args[1], old), value(t.args[2], old)
                return None if a is None or b is None else Ite(t.args[0], a, b)
            return old if t is h else Proj(1, t.args[0].args[-1].args[-1])
        T1 = replace(replace(T, MHas(h, key), TRUE), MGet(h, key), w)
        T0 = replace(T, MHas(h, key), FALSE)
        V1, V0 = value(T1, w), value(T0, empty)
        if V1 is None or V0 is None or h in V1.fv or h in V0.fv or subst(V1, {w: empty}) is not V0: return None
        touched = FALSE
        for conds, t in map_leaves(T0):
            c = And(*conds)
            if h in c.fv: return None
            if t is h:
                if given(V1, c) is not w: return None
            else: touched = Or(touched, c)
        M = Loc(L.obj, L.key)
        M.sort, M.h, M.paths, M.kind = vs, w, [([], V1)], L.kind
        M.init = Ite(MHas(init, key), MGet(init, key), empty)
        M.tree = V1
        try: F = self.closed(M)
        except Unsupported: return None
        USED["new-key"] += 1
        return lambda s: Ite(Ex(x, i, s, touched), MUpd(init, key, F(s)), init)

    def c_own_keys(self, L, T, h, init):
        """every iteration changes the value at a key of its own"""
        x, i, src = self.x, self.i, self.src
        key = self.one_key(T, h)
        if key is None or h in key.fv or i in T.fv: return None
        if h not in replace(T, pairs_of(h), fresh("pairs", pairs_of(h).sort)).fv: return None
        if key is not x or not ir.distinct_items(src): return None
        hh = fresh("h", h.sort)
        T = replace(T, pairs_of(h), pairs_of(hh))
        T = replace(replace(T, MGet(h, key), MGet(init, key)), MHas(h, key), MHas(init, key))
        T = replace(T, pairs_of(hh), pairs_of(h))
        M = Loc(L.obj, L.key)
        M.sort, M.h, M.init, M.kind, M.tree = L.sort, h, init, L.kind, T
        M.paths = list(flat_paths(tree_of(T)))
        if any(h in replace(t, pairs_of(h), pairs_of(hh)).fv and t is not h or any(h in c.fv for c in pc) for pc, t in M.paths): return None
        try: F = self.c_map(M, T, h, init, own=True)
        except Unsupported: return None
        if F is not None: USED["own-keys"] += 1
        return F

    def c_regroup(self, T, h, init):
        """h := the grouping of h's own contributions and more"""
        gs = [l for _, l in flat_ite(T) if l.op == "MGroup"]
        if not gs: return None
        p, kind = gs[0].data[0][0], gs[0].data[1]
        own = parts(h, kind)
        def rest(t):
            if t is h: return SEmpty(own.sort[1])
            if t.op == "Ite" and h not in t.args[0].fv:
                a, b = rest(t.args[1]), rest(t.args[2])
                return None if a is None or b is None else Ite(t.args[0], a, b)
            if t.op != "MGroup" or t.data[1] != kind or t.args[1] is not TRUE: return None
            q, = t.data[0]
            if t.args[2] is not Proj(0, q) or t.args[3] is not Proj(1, q): return None
            s = t.args[0]
            if not (s.op == "SCat" and s.args[0] is own): return None
            r = SCat(own.sort[1], *s.args[1:])
            return None if h in r.fv else r
        R = rest(T)
        if R is None: return None
        x, i = self.x, self.i
        USED["dict-regroup"] += 1
        q = fresh("p", own.sort[1])
        return lambda s: MGroup(q, SCat(own.sort[1], parts(init, kind), SComp(x, i, s, R)), TRUE, Proj(0, q), Proj(1, q), kind, T.sort[2])

    def contribution(self, v, old, vs, pc, h, foldu=False):
        """v = old (None: nothing) extended; the extension as a sequence of elements, and the kind of container"""
        if vs[0] == "Seq" and foldu:
            if old is None: return SLit(vs, v), "foldu"
            if v is old: return SEmpty(vs), "foldu"
            if v.op == "SOrdU" and v.args[0] is old and NonEmpty(old) in pc: return SLit(vs, v.args[1]), "foldu"
            if Not(NonEmpty(old)) in pc:
                c = self.contrib(v, old, vs[1])
                return SLit(vs, v if c is None else c), "foldu"
            return None
        if vs[0] == "Seq":
            c = v if old is None else self.contrib(v, old, vs[1])
            return None if c is None else (c, "seq")
        if vs[0] == "Set":
            c = set_elems(v) if old is None else self.contrib_set(v, old, vs[1])
            return None if c is None else (c, "set")
        ps = Tup(vs[1], vs[2])
        if old is None: rest = pairs_of(v)
        elif v is old: rest = SEmpty(ps)
        else:
            if v.op != "MOf": return None
            s = v.args[0]
            op = pairs_of(old)
            if not (s.op == "SCat" and s.args[0] is op): return None
            rest = SCat(ps, *s.args[1:])
        inner = vs[2]
        if h not in rest.fv and not (isinstance(inner, tuple) and inner[0] in ("Seq", "Set", "Map") and rest.op == "SLit"):
            return rest, "map"
        if not (isinstance(inner, tuple) and inner[0] in ("Seq", "Set", "Map")) or rest.op != "SLit": return None
        out, kind = [], None
        last = {Proj(0, p): Proj(1, p) for p in rest.args}
        if len(last) != 1: return None
        for k, v2 in last.items():
            if old is None: old2 = None
            elif MHas(old, k) in pc: old2 = MGet(old, k)
            elif Not(MHas(old, k)) in pc: old2 = None
            else: return None
            c = self.contribution(v2, old2, inner, pc, h, foldu)
            if c is None: return None
            out.append(MkTup(k, c[0])); kind = ("group", c[1], inner)
        return SLit(out[0].sort, *out), kind

    def c_group(self, L, paths, h, init, vs):
        r = self.c_group1(L, paths, h, init, vs, False)
        return r if r is not None else self.c_group1(L, paths, h, init, vs, True)

    def c_group1(self, L, paths, h, init, vs, foldu):
        x, i = self.x, self.i
        ks = L.sort[1]
        leaves, kinds = [], set()
        for pc, ups in paths:
            ops = []
            for u in ups:
                if u[0] == "assign":
                    r = u[1]
                    if r.op != "SLit": return None
                    us = [(Proj(0, p), Proj(1, p)) for p in r.args]
                else: us = [u]
                for k, v in us:
                    has = MHas(h, k)
                    if has in pc: c = self.contribution(v, MGet(h, k), vs, pc, h, foldu)
                    elif Not(has) in pc: c = self.contribution(v, None, vs, pc, h, foldu)
                    else: return None
                    if c is None or h in c[0].fv: return None
                    kinds.add(c[1])
                    ops.append(MkTup(k, c[0]))
            leaves.append((pc, ops))
        if len(kinds) != 1: return None
        kind, = kinds
        os_ = next(o.sort for _, ops in leaves for o in ops)
        tree = decision_tree([(pc, SLit(os_, *ops)) for pc, ops in leaves])
        tree = drop_state(tree, h)
        if tree is None: return None
        if kind == "map" and isinstance(vs[2], tuple) and vs[2][0] in ("Seq", "Set", "Map") and False: return None
        p = fresh("p", os_)
        iops = parts(init, kind)
        USED["dict-group"] += 1
        return lambda s: MGroup(p, SCat(os_, iops, SComp(x, i, s, tree)), TRUE, Proj(0, p), Proj(1, p), kind, vs)

    # -------------------------------------------------------- installing the result
    def install(self, s, outs):
        it = self.it
        for L in self.locs.values():
            if L.kind == "local":
                it.write(L.obj, L.key, Stale("assigned in a loop"))
            elif L.kind == "rebind":
                it.write(L.obj, L.key, Cell(L.init.kind, L.F(s), L.init.default))
            else:
                it.write(L.obj, L.key, L.F(s))
        self.books(outs)

    def books(self, outs):
        it = self.it
        for o in outs:
            for (obj, key), v in o.writes.items():
                if key == "frozen" and v: it.write(obj, key, v)
                elif key == "borrows" and v: it.write(obj, key, join_borrows(obj.d.get(key), v))
                elif key == "shares": it.write(obj, key, obj.d.get(key, frozenset()) | v)

    # -------------------------------------------------------- exits
    def exits(self, ab, outs):
        it, x, i, src = self.it, self.x, self.i, self.src
        m = {L.h: L.F(SPrefix(src, i)) for L in self.locs.values() if L.kind != "local" and L.h is not None}
        conds = [subst(And(*o.pc), m) for o in ab]
        E = Or(*conds)
        if not it.branch(Ex(x, i, src, E)):
            self.install(src, outs)
            return False
        # the first iteration that leaves the loop
        fx, fi = First(x, i, src, E, x), First(x, i, src, E, i)
        at = {x: fx, i: fi}
        pick = None
        for n, o in enumerate(ab):
            if n == len(ab) - 1: pick = n; break
            c = First(x, i, src, E, conds[n]) if False else subst(conds[n], at)
            if E.op != "Or" and conds[n] is E: c = TRUE
            if it.branch(c): pick = n; break
        o = ab[pick]
        upto = SUntil(x, i, src, E)
        self.install(upto, outs)
        st = {L.h: L.F(upto) for L in self.locs.values() if L.kind != "local" and L.h is not None}
        m2 = {**at, **st}
        memo = {"birth": 0}
        for (obj, key), v in o.writes.items():
            if key in BOOK: continue
            it.write(obj, key, subst_val(it, v, m2, {}) if not isinstance(v, MObj) else subst_val(it, v, m2, {}))
        USED["exit"] += 1
        if o.kind == "break": return True
        if o.kind == "return": raise Ret(subst_val(it, o.value, m2, {}))
        e = o.value
        raise PyRaise(e.cls, subst_val(it, e.val, m2, {}) if e.val is not None else None, e.where)


def unchanged(v, v0):
    if isinstance(v, Sub) and isinstance(v0, Sub): return unchanged(v.parent, v0.parent) and v.path == v0.path and v.sort == v0.sort
    return v is v0 or isinstance(v, tuple) and isinstance(v0, tuple) and len(v) == len(v0) and all(unchanged(a, b) for a, b in zip(v, v0))


def parts(m, kind):
    """the contributions that make up the map m, one per key"""
    def conv(v, k):
        if k == "seq": return v
        if k == "foldu": return SLit(v.sort, v)
        if k == "set": return set_elems(v)
        if k == "map": return pairs_of(v)
        return parts(v, k[1])
    ip = pairs_of(m)
    return smap(ip, lambda q: MkTup(Proj(0, q), conv(Proj(1, q), kind)))


def content_sort(it, kind, v):
    if isinstance(v, Term): return v.sort
    if kind == "dict":
        return ("Map", it.unify_all([it.sort_of(k) for k, _ in v]), it.unify_all([it.sort_of(x) for _, x in v]))
    es = it.unify_all([it.sort_of(x) for x in v])
    return ("Set", es) if kind == "set" else ("Seq", es)

