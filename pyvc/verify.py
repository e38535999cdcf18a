"""Obligations of a contract: the real function (interpreted from its current source) against its
specification, for all inputs of the declared sorts, path by path."""
from __future__ import annotations
import collections, dataclasses, enum, itertools, time, types, random, os
from . import ir, interp, lib, lower, loops, contract as C, regexp, concrete
from .ir import *
from .interp import (Interp, Unsupported, PyRaise, Cell, Sub, Obj, Iter, Raw, Match, StarArg, RecInfo, register_rec, RECS, RECS_BY_NAME,
                     FIELD_LANG, Outcome, HostFn, PathVal, ExcVal, MObj, DictView, Stale)

_ready = False


def setup():
    global _ready
    if _ready: return
    _ready = True
    import variantlib.models.variant as mv
    import variantlib.models.provider as mp
    from variantlib import constants as k
    for cls, name, fields in ((mv.VariantFeature, "VF", [("namespace", STR), ("feature", STR)]),
                              (mv.VariantProperty, "VP", [("namespace", STR), ("feature", STR), ("value", STR)])):
        register_rec(RecInfo(name, cls, fields, lib.rec_construct))
    register_rec(RecInfo("VD", mv.VariantDescription, [("properties", Seq(Rec("VP")))], lib.rec_construct))
    register_rec(RecInfo("VFC", mp.VariantFeatureConfig, [("name", STR), ("values", Seq(STR)), ("multi_value", BOOL)], lib.rec_construct))
    register_rec(RecInfo("PC", mp.ProviderConfig, [("namespace", STR), ("configs", Seq(Rec("VFC")))], lib.rec_construct))
    import variantlib.models.variant_info as mi
    register_rec(RecInfo("PI", mi.ProviderInfo, [("plugin_api", Opt(STR)), ("enable_if", Opt(STR)), ("install_time", BOOL), ("optional", BOOL),
                                                 ("requires", Seq(STR))], lib.rec_construct))
    lib.MUTABLE_RECS.add("PI")
    import contracts.c_resolver as cr
    register_rec(RecInfo("Dist", cr.FakeDist, [("name", STR), ("version", STR)], lib.rec_construct))
    import contracts.world as w
    register_rec(RecInfo("FCD", w.CfgDoc, [("name", STR), ("values", Seq(STR)), ("multi_value", BOOL)], lib.rec_construct))
    lib.MUTABLE_RECS.add("FCD"); lib.DICT_RECS.add("FCD")
    ir.SORTED_FIELDS.add(("VD", "properties"))
    from . import deps
    deps.install()


NAME_LANG = (r"[a-z0-9_]+", 0)
VALUE_LANG = (r"[a-z0-9_.]+", 0)


def class_invariants():
    """values of the record classes satisfy what C02 proves about their constructors"""
    for r in ("VF", "VP"):
        FIELD_LANG[(r, "namespace")] = NAME_LANG
        FIELD_LANG[(r, "feature")] = NAME_LANG
    FIELD_LANG[("VP", "value")] = VALUE_LANG
    FIELD_LANG[("VFC", "name")] = NAME_LANG
    FIELD_LANG[("VFC", "values", "*")] = VALUE_LANG
    FIELD_LANG[("PC", "namespace")] = NAME_LANG
    FIELD_LANG[("FCD", "name")] = NAME_LANG
    FIELD_LANG[("FCD", "values", "*")] = VALUE_LANG


# ------------------------------------------------------------------ sorts of arguments
def sorts_of(t):
    """alternatives"""
    if isinstance(t, C.Star): return [("Star", s) for s in sorts_of(t.t)]
    if isinstance(t, C.L): return [Seq(s) for s in sorts_of(t.t)]
    if isinstance(t, C.O): return [Opt(s) for s in sorts_of(t.t)]
    if isinstance(t, C.D): return [Map(a, b) for a in sorts_of(t.k) for b in sorts_of(t.v)]
    if isinstance(t, C.SetT): return [SetS(s) for s in sorts_of(t.t)]
    if isinstance(t, C.Named):
        s = NAMED_SORTS.get(t.name)
        if s is None: raise Unsupported("argument type %s has no symbolic form" % t.name)
        return s
    raise Unsupported("argument type %r" % (t,))


NAMED_SORTS = {
    "ns": [STR], "feat": [STR], "val": [STR], "text": [STR], "textform": [STR], "bool": [BOOL], "int": [INT], "json": [J],
    "vprop": [Rec("VP")], "vfeat": [Rec("VF"), Rec("VP")], "vfeat0": [Rec("VF")], "vdesc": [Rec("VD")],
    "pcfg": [Rec("PC")], "name?": [J], "value?": [J], "label?": [Opt(STR)], "prop?": [Rec("VP")], "fcfg?": [Rec("VFC")],
    "dists": [Seq(Rec("Dist"))], "env": [Opt(STR)], "pinfo": [Rec("PI")], "enable": [BOOL, Seq(STR)], "cfgdoc": [Rec("FCD")],
}


def valid_facts(t, uniq_of=None):
    """class invariants of the argument values as hypotheses (quantified ones for containers)"""
    out = []
    s = t.sort
    if isinstance(s, tuple):
        if s == Rec("VD"):
            p = Fld("VD", "properties", t)
            out.append(distinct(p))
        elif s in (Rec("VFC"), Rec("FCD")):
            v = Fld(s[1], "values", t)
            x = fresh("v", STR)
            out += [NonEmpty(v), distinct(v), All(x, None, v, InRe(regexp.lang_key(*VALUE_LANG), x))]
        elif s == Rec("PI"):
            out += [Or(Not(Fld("PI", "install_time", t)), NonEmpty(Fld("PI", "requires", t)))]
        elif s[0] == "Map" and isinstance(s[2], tuple) and s[2][0] == "Rec":
            k = fresh("k", s[1])
            out += [All(k, None, SKeys(t), f) for f in valid_facts(MGet(t, k))]
        elif s == Rec("PC"):
            c = Fld("PC", "configs", t)
            out += [NonEmpty(c)]
    return [f for f in out if f is not TRUE]


def distinct(s):
    x = fresh("x", s.sort[1])
    return Not(Dup(x, s, x))


def sym_value(it, name, s):
    """a fresh symbolic argument; containers become mutable cells over an arbitrary content"""
    if isinstance(s, tuple) and s[0] == "Star":
        return StarArg(Var(name, Seq(s[1])))
    v = Var(name, s)
    return wrap(it, v)


def wrap(it, v):
    s = v.sort
    if isinstance(s, tuple) and s[0] in ("Seq", "Map", "Set"):
        kind = {"Seq": "list", "Map": "dict", "Set": "set"}[s[0]]
        c = Cell(kind, v, origin=("arg", v))
        return c
    return v


# ------------------------------------------------------------------ comparing results
def same(it, a, b):
    """Bool term: the two results are the same observable value (types included)"""
    if isinstance(a, Iter): a = Cell("list", a.d["seq"])
    if isinstance(b, Iter): b = Cell("list", b.d["seq"])
    if isinstance(a, DictView) or isinstance(b, DictView): raise Unsupported("dict view returned")
    if isinstance(a, bool): a = B(a)
    if isinstance(b, bool): b = B(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return FALSE
        return And(*[same(it, x, y) for x, y in zip(a, b)])
    for x, y, fl in ((a, b, 0), (b, a, 1)):
        if isinstance(x, tuple) and isinstance(y, Term) and isinstance(y.sort, tuple) and y.sort[0] == "Tup":
            return And(*[same(it, xx, Proj(i, y)) for i, xx in enumerate(x)]) if len(x) == len(y.sort[1]) else FALSE
    if isinstance(a, Obj) and isinstance(b, Obj):
        if a.cls is not b.cls: return FALSE
        return And(*[same(it, a.d[f], b.d[f]) for f in sorted(set(a.d) & set(b.d))]) if set(a.d) == set(b.d) else FALSE
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Obj) and x.cls in RECS and isinstance(y, Term) and y.sort == Rec(RECS[x.cls].name):
            return same(it, lib.seal(it, x), y)
    if isinstance(a, Raw) and isinstance(b, Raw): return B(a == b)
    ka, kb = it.kindname(a), it.kindname(b)
    if ka in ("Seq", "Map", "Set") and ka == kb:
        ca, cb = it.get(a), it.get(b)
        if isinstance(ca, tuple) and isinstance(cb, tuple) and ka == "Seq":
            if len(ca) != len(cb): return FALSE
            return And(*[same(it, x, y) for x, y in zip(ca, cb)])
        if isinstance(ca, tuple) and isinstance(cb, tuple) and ka == "Map" and lib.const_keys(ca) and lib.const_keys(cb):
            da, db = dict(ca), dict(cb)
            if set(da) != set(db): return FALSE
            return And(*[same(it, da[k], db[k]) for k in da])
        s = it.complete(it.unify(it.sort_of(a), it.sort_of(b)))
        ta, tb = it.as_term(a, s), it.as_term(b, s)
        return Eq(ta, tb) if ka == "Seq" else VEq(ta, tb)
    if isinstance(a, Term) and isinstance(b, Term) or ka in ("Opt", "J") or kb in ("Opt", "J"):
        sa, sb = it.sort_of(a), it.sort_of(b)
        if sa == sb: return VEq(it.as_term(a), it.as_term(b))
        if sa == NONE or sb == NONE or ka == "Opt" or kb == "Opt":
            s = it.complete(it.unify(sa, sb))
            if s == J or (isinstance(s, tuple) and s[0] == "Opt"):
                x, y = it.as_term(a, s), it.as_term(b, s)
                return VEq(x, y)
        if J in (sa, sb):
            return Eq(it.to_j(a), it.to_j(b))
        if sa in (STR, INT, BOOL, NONE) and sb in (STR, INT, BOOL, NONE): return FALSE
    if ka != kb: return FALSE
    raise Unsupported("comparison of %r and %r" % (a, b))


def mapeq(a, b): return VEq(a, b)


# ------------------------------------------------------------------ engine set-up
def new_interp():
    setup()
    it = Interp()
    import variantlib.validators.base as vb
    it.contracts[vb.validate_type] = lib.lib_validate_type
    from . import specs
    specs.install(it)
    return it


def use_callees(it, c):
    from . import specs
    specs.install_callees(it, c, True)
    for name in c.opts.get("inline", ()):
        # a function that is otherwise used through its contract: here its body is verified
        mod, _, f = name.partition(":")
        import importlib
        it.contracts.pop(getattr(importlib.import_module(mod), f), None)


class TimeUp(BaseException): pass


class Result:
    def __init__(self, cid):
        self.cid, self.status, self.obls, self.why = cid, None, [], ""
        self.functions, self.assumed = set(), collections.Counter()
        self.open = []
        self.paths = 0
        self.seconds = 0.0
        self.cross = 0
        self.covers = []
        self.sides = []


def entry_of(c): return c.entry or c.run or c.real()


def explore_side(it, fn, c, alts, names):
    """outcomes of one side; argument cells are fresh, their final contents recorded in the outcome"""
    cells = []
    args = []
    for n, s in zip(names, alts):
        v = sym_value(it, n, s)
        args.append(v)
        if isinstance(v, Cell): cells.append((n, v))
    def body():
        v = observe(it, it.call(fn, list(args), {}))
        if c.noshare: return v, shared(it, v, {id(x) for _, x in cells})
        return v
    outs = it.explore(body)
    for o in outs:
        if c.noshare and o.kind == "normal": o.value, o.shared = o.value
        o.final = {n: o.writes.get((v, "val"), v.d["val"]) for n, v in cells}
        o.cells = {n: v for n, v in cells}
    return outs


def owned(t):
    """the containers inside the container t were certainly created by the function: t says so by its form
    (a copy is not told apart from the original, so the answer may be a wrong no, never a wrong yes)"""
    def new(v):
        """v itself and everything inside it"""
        if not lib.holds_container(v.sort): return True
        if v.op == "Ite": return new(v.args[1]) and new(v.args[2])
        if v.op in ("MkTup", "Some", "MkRec"): return all(new(a) for a in v.args)
        if v.op in ("SComp", "SLit", "SCat", "SFoldU", "SOrdU", "SDedup", "SSort", "SetOf", "MOf", "MGroup", "NoneOf"): return owned(v)
        return False
    s = t.sort
    if s[0] == "Seq" and not lib.holds_container(s[1]) or s[0] == "Set": return True
    if t.op == "Ite": return owned(t.args[1]) and owned(t.args[2])
    if t.op == "SLit": return all(new(a) for a in t.args)
    if t.op == "SCat": return all(owned(a) for a in t.args)
    if t.op == "SComp": return owned(t.args[1])
    if t.op == "MOf": return owned(t.args[0])
    if t.op == "MGroup":
        kind = t.data[1]
        def elems(s, k):
            if isinstance(k, tuple) or k == "map": return owned(s) if k == "map" else all_contribs(s, k[1])
            return k == "foldu" or not lib.holds_container(s.sort[1])
        def all_contribs(s, k):
            if s.op == "Ite": return all_contribs(s.args[1], k) and all_contribs(s.args[2], k)
            if s.op == "SComp": return all_contribs(s.args[1], k)
            if s.op == "SCat": return all(all_contribs(a, k) for a in s.args)
            if s.op == "SLit": return all(a.op == "MkTup" and elems(a.args[1], k) for a in s.args)
            return False
        if t.args[2].op == "Proj" and t.args[3].op == "Proj": return all_contribs(t.args[0], kind)
        return elems(t.args[3], kind)
    if s[0] == "Map" and not lib.holds_container(s[2]): return True
    return False


def shared(it, v, args):
    """may the result share a mutable object with something that existed before the call"""
    if isinstance(v, Cell):
        ct, b = v.d["val"], v.d.get("borrows")
        if id(v) in args or v.origin is not None or b and not interp.maybe(b): return True
        if b and not (isinstance(ct, Term) and owned(ct)): raise Unsupported("whether the result shares an object with the arguments")
        return isinstance(ct, tuple) and any(shared(it, y, args) for x in ct for y in (x if isinstance(x, tuple) else (x,)))
    if isinstance(v, tuple): return any(shared(it, x, args) for x in v)
    if isinstance(v, Term): return lib.holds_container(v.sort) and not lib.fresh_container(v)
    return True


def observe(it, v):
    v2 = v
    if isinstance(v2, Term) and isinstance(v2.sort, tuple) and v2.sort[0] == "Opt": return it.unopt(v2)
    return v2


def content(it, kind, v, s):
    return it.as_term(v, s)


def verify(c, budget=120, keep_open=True):
    r = Result(c.cid)
    t0 = time.time()
    lower.DEADLINE[0] = t0 + budget
    try:
        class_invariants()
        names = list(c.args)
        if c.obligations is not None: return automata_obligations(c, r, t0)
        if not names: raise Unsupported("the contract's inputs come from a generator only; they have no symbolic form")
        alts = list(itertools.product(*[sorts_of(t) for t in c.args.values()]))
        for k, alt in enumerate(alts):
            verify_alt(c, r, names, alt, "" if len(alts) == 1 else "/alt%d" % k)
        if not r.obls: raise Unsupported("no obligation was generated")
        bad = [o for o in r.obls if o[1] != "proved"]
        r.status = "proved" if not bad else "failed"
    except TimeUp: r.status, r.why = "timeout", "the verifier's time budget (%d s) ran out" % budget
    except (Unsupported, ir.IRError, regexp.Unsupported, RecursionError) as e:
        r.status, r.why = "unsupported", "%s: %s" % (type(e).__name__, str(e)[:600])
    r.seconds = time.time() - t0
    lower.DEADLINE[0] = None
    return r


def automata_obligations(c, r, t0):
    for name, ok, why, witness in c.obligations():
        name = c.cid + "/" + name
        r.obls.append((name, "proved" if ok else "open"))
        if not ok: r.open.append({"obligation": name, "why": why, "hyps": [], "goal": why, "function": c.target, "witness": witness})
        lower.STATS["syntactic"] += 1
    r.status = "proved" if not r.open else "failed"
    r.functions.add(c.target); r.covers.append((1, 1))
    r.seconds = time.time() - t0
    lower.DEADLINE[0] = None
    return r


def preconditions(it, c, names, alt):
    from . import specs
    facts = []
    for n, s in zip(names, alt):
        if isinstance(s, tuple) and s[0] == "Star": continue
        facts += valid_facts(Var(n, s))
        facts += list(C_FACTS(c, n, s))
    if c.pre is not None:
        outs = explore_side(it, c.pre, c, alt, names)
        ok = []
        for o in outs:
            if o.kind != "normal":
                if o.value.cls is concrete.AnyError: continue
                raise Unsupported("precondition raises %s" % (o.value,))
            v = o.value
            ok.append(And(*o.pc, v if isinstance(v, Term) else B(bool(v))))
        facts.append(Or(*ok))
    return [f for f in facts if f is not TRUE]


def C_FACTS(c, n, s):
    t = c.args[n]
    if isinstance(t, C.L) and t.uniq: yield distinct(Var(n, s))


def verify_alt(c, r, names, alt, tag):
    from . import specs
    it = new_interp()
    use_callees(it, c)
    pre = preconditions(it, c, names, alt)
    it.pc = list(lower.lits_of(pre))
    if lower.saturate(it.pc) is None: raise Unsupported("the precondition is contradictory")
    code = explore_side(it, entry_of(c), c, alt, names)
    r.functions |= it.inlined
    if set(c.callees or ()) - it.callees_used: raise Unsupported("not called: %s" % ", ".join(sorted(set(c.callees) - it.callees_used)))
    for cid, hyps, goal in it.callee_obls:
        name = "%s%s/precondition(%s)" % (c.cid, tag, cid)
        try:
            lower.prove(hyps, goal)
            r.obls.append((name, "proved"))
        except lower.Open as e:
            r.obls.append((name, "open"))
            r.open.append({"obligation": name, "why": e.why, "hyps": [ir.show(h)[:600] for h in e.hyps[:14]], "goal": ir.show(e.goal)[:1500], "function": c.target})
    it2 = new_interp()
    specs.install_callees(it2, c, False)
    it2.pc = list(it.pc)
    spec = explore_side(it2, c.spec, c, alt, names)
    r.assumed.update(it.calls); r.assumed.update(lib.USED)
    r.paths += len(code) + len(spec)
    r.sides.append((alt, code, spec, it))
    if not code or not spec: raise Unsupported("no path")
    r.covers.append((len(code), sum(1 for o in code if lower.saturate(it.pc + o.pc) is not None)))
    if not r.covers[-1][1]: raise Unsupported("no path of the function is reachable under the precondition")
    for i, oc in enumerate(code):
        for j, os_ in enumerate(spec):
            hyps = it.pc + oc.pc + os_.pc
            nm = "%s%s/code%d-spec%d" % (c.cid, tag, i, j)
            def ob(suffix, goal):
                name = nm + ":" + suffix
                try:
                    lower.prove(hyps, goal)
                    r.obls.append((name, "proved"))
                except lower.Open as e:
                    r.obls.append((name, "open"))
                    if len(r.open) < 6:
                        r.open.append({"obligation": name, "why": e.why, "hyps": [ir.show(h)[:600] for h in e.hyps[:14]], "goal": ir.show(e.goal)[:1500],
                                       "function": c.target})
            kc, ks = oc.kind, os_.kind
            if kc == "raise" and ks == "raise":
                want = os_.value.cls
                okk = issubclass(oc.value.cls, Exception) if want is concrete.AnyError else issubclass(oc.value.cls, want)
                if not okk: ob("exception-kind(%s not %s)" % (oc.value.cls.__name__, want.__name__), FALSE)
                else: r.obls.append((nm + ":exception-kind", "proved")); continue
                continue
            if kc != ks:
                ob("outcome(%s vs %s)" % (desc(oc), desc(os_)), FALSE); continue
            if lower.saturate(hyps) is None:
                r.obls.append((nm + ":disjoint", "proved")); continue
            mark = len(it.pc)
            it.pc.extend(oc.pc + os_.pc)
            try: goal = same(it, oc.value, os_.value)
            finally: del it.pc[mark:]
            ob("result", goal)
            if c.noshare: ob("fresh-result", B(not oc.shared))
            for n in oc.final:
                s = dict(zip(names, alt))[n]
                ob("frame(%s)" % n, VEq(it.as_term(oc.final[n], s), it.as_term(os_.final[n], s)))


def desc(o):
    return "raises " + o.value.cls.__name__ if o.kind == "raise" else "returns"
