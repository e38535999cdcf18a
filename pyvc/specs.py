"""Helpers used by specification functions that have a direct meaning as terms, and contracts of callees.

Each helper is ordinary Python (so CPython can run the specification); here it gets the same meaning as a term.
The correspondence is cross-checked on every run by evaluating both."""
from __future__ import annotations
import json, re
from . import ir, interp, lib, regexp, strings
from .ir import *
from .interp import Unsupported, PyRaise, Cell, Sub


def over(it, args, kwargs):
    """non-empty string over a fixed set of characters"""
    s, chars = args
    if not is_const(chars): raise Unsupported("over: characters not constant")
    s = it.unopt(s)
    if s.sort == J: s = JAs("str", s)
    return InRe(regexp.lang_key("[" + re.escape(cval(chars)) + "]+"), s)


def fields(it, args, kwargs):
    s, chars = args[0], [cval(c) for c in args[1:]]
    s = it.unopt(s)
    if s.sort == J: s = JAs("str", s)
    pat = strings.WS_CH + "*" + "::".join("%s(?P<f%d>[%s]+)%s" % (strings.WS_CH + "*" if n else "", n, re.escape(c), strings.WS_CH + "*") for n, c in enumerate(chars))
    if not it.branch(InRe(regexp.lang_key(pat), s)): return NONE_T
    return tuple(strings.group_term(strings.group_dfa(pat, 0, "f%d" % n), s) for n in range(len(chars)))


API = (r"[\w.]+(?:\s*:\s*[\w.]+)?", 0)


def plugin_api_ok(it, args, kwargs): return InRe(regexp.lang_key(*API), it.unopt(args[0]))


def no_line_or_tab(it, args, kwargs):
    s = it.unopt(args[0])
    if s.sort == J: s = JAs("str", s)
    return InRe(regexp.lang_key(r"[\S ]+"), s)


def normalized(it, args, kwargs):
    s = it.unopt(args[0])
    pat = r"(?P<m>[\w.]+)(?:\s*:\s*(?P<a>[\w.]+))?"
    m, a = (strings.group_dfa(pat, 0, n) for n in "ma")
    mt = strings.group_term(m, s)
    return Ite(strings.group_term(a, s, "set"), StrCat(mt, S(":"), strings.group_term(a, s)), mt)


def together(it, args, kwargs): return Contig(it.seq_term(it.seq_of(args[0])))


def install(it):
    import contracts.c_models as m
    import contracts.c_resolver as cr
    it.contracts[cr.together] = together
    it.contracts[m.fields] = fields
    it.contracts[m.over] = over
    install_worlds(it)


# ------------------------------------------------------------------ callers against their callees' contracts
def unembed(v, s):
    """python value of an evaluated term"""
    if s == J:
        k, x = v
        if k == "list": return [unembed(y, J) for y in x]
        if k == "dict": return {a: unembed(b, J) for a, b in x}
        return x
    if not isinstance(s, tuple): return v
    if s[0] == "Seq": return [unembed(x, s[1]) for x in v]
    if s[0] == "Set": return {unembed(x, s[1]) for x in v}
    if s[0] == "Map": return {unembed(a, s[1]): unembed(b, s[2]) for a, b in v}
    if s[0] == "Opt": return None if v is None else unembed(v[1], s[1])
    if s[0] == "Tup": return tuple(unembed(x, t) for x, t in zip(v, s[1]))
    if s[0] == "Rec":
        info = interp.RECS_BY_NAME[s[1]]
        return info.pycls(**{f: unembed(x, t) for x, (f, t) in zip(v.vals, info.fields)})
    raise Unsupported("value of sort %r" % (s,))


def install_callees(it, c, real):
    """calls of the callee functions mean the (uninterpreted) function their contracts specify; on the code's side
    the callee's precondition becomes an obligation"""
    from . import contract as C
    for cid in c.callees or ():
        cc = C.CONTRACTS[cid]
        install_callee(it, cc, real)


def install_callee(it, cc, real):
    """opts of the callee's contract: result sort; raises: the exception its specification may raise; bind: the contract's arguments
    in terms of the arguments of the call; given: condition on the arguments, required of the caller, under which it does not raise;
    implies: what its (boolean) result implies.  given and implies are justified by the lemma contract opts["lemma"]."""
    from . import contract as C, verify, cross
    import inspect, itertools
    names = list(cc.args)
    rsort = cc.opts["result"]
    exc = None if "given" in cc.opts else cc.opts.get("raises")
    if ("given" in cc.opts or "implies" in cc.opts) and cc.opts["lemma"] not in C.CONTRACTS: raise Unsupported("callee's lemma")
    alts = list(itertools.product(*[verify.sorts_of(t) for t in cc.args.values()]))
    for n, alt in enumerate(alts): callee_apps(cc, n if len(alts) > 1 else None, alt, rsort, exc)
    def handler(fn):
        params = inspect.signature(fn)
        gen = inspect.isgeneratorfunction(fn)
        def h(it, args, kwargs):
            if fn is not cc.spec: it.callees_used.add(cc.cid)
            if fn is not cc.spec and "bind" in cc.opts:
                vals = list(it.call(cc.opts["bind"], list(args), dict(kwargs)))
            else:
                try: b = params.bind(*args, **kwargs)
                except TypeError: raise PyRaise(TypeError)
                b.apply_defaults()
                if set(names) - set(b.arguments): raise Unsupported("arguments of the callee %s" % cc.target)
                vals = [b.arguments[n] for n in names]
            vals = [it.lift(v) if v is None or isinstance(v, bool) else v for v in vals]
            k, alt = 0, alts[0]
            if len(alts) > 1:
                have = [it.sort_of(v) for v in vals]
                fit = [n for n, a in enumerate(alts) if all(len(verify.sorts_of(t)) == 1 or s == w for t, s, w in zip(cc.args.values(), a, have))]
                if len(fit) != 1: raise Unsupported("argument sorts of the callee %s" % cc.cid)
                k = fit[0]; alt = alts[k]
            ts = [it.as_term(v, s) for v, s in zip(vals, alt)]
            name = cc.cid if len(alts) == 1 else "%s/%d" % (cc.cid, k)
            for need in (cc.pre, cc.opts.get("given")):
                if fn is not cc.spec and need is not None: it.require(cc.cid, need, ts)
            if exc is not None and it.branch(App(name + " raises", BOOL, *ts)): raise PyRaise(exc, where=cc.cid)
            t = App(name, rsort, *ts)
            if "implies" in cc.opts: t = And(t, it.truth(it.call(cc.opts["implies"], [verify.wrap(it, x) for x in ts], {})))
            if isinstance(rsort, tuple) and rsort[0] == "Seq": return interp.Iter(t) if gen else Cell("list", t)
            if isinstance(rsort, tuple) and rsort[0] == "Map": return Cell("dict", t)
            return t
        return h
    if real:
        try: fn = cc.real()
        except AttributeError: raise Unsupported("callee %s does not exist" % cc.target)
        if isinstance(fn, property): fn = fn.fget
        it.contracts[fn] = handler(fn)
    it.contracts[cc.spec] = handler(cc.spec)


def callee_apps(cc, n, sorts, rsort, exc):
    from . import cross
    name = cc.cid if n is None else "%s/%d" % (cc.cid, n)
    def run(vals):
        try: return cc.spec(*[unembed(v, s) for v, s in zip(vals, sorts)]), None
        except Exception as e:
            if exc is None or not isinstance(e, exc): raise
            return None, e
    def value(*vals):
        v, e = run(vals)
        if e is not None: raise ir.Undefined("callee raises")
        return cross.embed(list(v) if isinstance(rsort, tuple) and rsort[0] == "Seq" else v, rsort)
    ir.APPS[name] = value
    ir.APPS[name + " raises"] = lambda *vals: run(vals)[1] is not None


# ------------------------------------------------------------------ ghost worlds
class Overrides(interp.LibCM):
    """for the duration of the with-block, some library calls and globals mean what the contract's ghost arguments say"""
    def __init__(self, contracts=(), glob=()): self.c, self.g = dict(contracts), dict(glob)
    def enter(self, it):
        self.saved = dict(it.contracts), dict(it.global_over)
        it.contracts.update(self.c); it.global_over.update(self.g)
        return NONE_T
    def exit(self, it):
        it.contracts.clear(); it.contracts.update(self.saved[0])
        it.global_over.clear(); it.global_over.update(self.saved[1])


def platform(it, args, kwargs):
    """the installed distributions and VARIANT_ABI_DEPENDENCY are the ghost arguments"""
    import importlib.metadata, os
    dists, env = args
    return Overrides({importlib.metadata.distributions: lambda it, a, k: interp.Iter(it.seq_of(dists))},
                     {("os", "environ"): interp.Opaque("environ", it.as_term(env, Opt(STR)))})


def user_config(it, args, kwargs):
    """the user's configuration is the ghost argument"""
    from variantlib.configuration import VariantConfiguration
    from variantlib.models.configuration import VariantConfiguration as Model
    a = dict(zip(("namespace_priorities", "feature_priorities", "property_priorities"), args))
    for k in ("namespace_priorities", "feature_priorities", "property_priorities"):
        if k not in a: a[k] = Cell("list" if k == "namespace_priorities" else "dict", ())
    m = it.call(Model, [], a)
    return Overrides({VariantConfiguration.get_config.__func__: lambda it, a, k: m})


def writing(it, args, kwargs):
    """metadata objects that are written out are recorded; the text itself is opaque"""
    from variantlib.variants_json import VariantsJson
    out = Cell("list", ())
    def to_str(it, a, k):
        it.call_method(out, "append", [a[0]], {})
        return interp.Opaque("text", None)
    class W(Overrides):
        def enter(self, it):
            super().enter(it)
            return out
    return W({VariantsJson.to_str: to_str})


def dumping(it, args, kwargs):
    """documents written as JSON are recorded; the text itself is opaque"""
    out = Cell("list", ())
    def dumps(it, a, k):
        it.call_method(out, "append", [(a[0], k.get("sort_keys", FALSE))], {})
        return interp.Opaque("text", None)
    class W(Overrides):
        def enter(self, it):
            super().enter(it)
            return out
    return W({json.dumps: dumps})


def answering(it, args, kwargs):
    """every interpreter answers a query with the ghost document of that method; the queries are recorded"""
    import json, subprocess
    answers = args[0]
    log = Cell("list", ())
    def run(it, a, k):
        cmd = it.as_term(a[0] if a else k["args"])
        data = k["input"]
        q = json.loads(cval(data.text if isinstance(data, lib.Bytes) else data))
        if len(q) != 1: raise Unsupported("several queries at once")
        m = next(iter(q))
        refs, fixed = command_line(cmd)
        it.call_method(log, "append", [(S(m), Cell("list", refs), B(fixed))], {})
        return interp.Opaque("process", (m, answers))
    def loads(it, a, k):
        v = a[0]
        if not (isinstance(v, interp.Opaque) and v.kind == "json"): raise Unsupported("json.loads of %r" % (v,))
        m, ans = v.term
        return Cell("dict", ((S(m), it.view(it.as_term(lib.getitem(it, ans, S(m))))),))
    class W(Overrides):
        def enter(self, it):
            self.c[subprocess.run] = run; self.c[json.loads] = loads
            self.g[("variantlib.plugins.loader", "VARIANT_PROVIDER_CACHE_TABLE")] = Cell("dict", ())
            super().enter(it)
            return log
    return W()


def answering_by_query(it, args, kwargs):
    """the interpreter answers the first query with one document, every different query with another one"""
    import json, subprocess
    first, other = args
    seen = []
    def run(it, a, k):
        cmd = it.seq_of(a[0] if a else k["args"])
        if isinstance(cmd, tuple): py, rest = cmd[0], SLit(STR, *[it.as_term(x, STR) for x in cmd[2:]])
        elif cmd.op == "SCat" and cmd.args[0].op == "SLit" and len(cmd.args[0].args) >= 2:
            py, rest = cmd.args[0].args[0], SCat(STR, SLit(STR, *cmd.args[0].args[2:]), *cmd.args[1:])
        else: raise Unsupported("command line %s" % show(cmd)[:200])
        data = k["input"]
        q = MkTup(it.as_term(py, STR), rest, data.text if isinstance(data, lib.Bytes) else it.as_term(data, STR))
        seen.append(q)
        return interp.Opaque("process", first if q is seen[0] or it.branch(VEq(q, seen[0])) else other)
    def loads(it, a, k):
        v = a[0]
        if not (isinstance(v, interp.Opaque) and v.kind == "json"): raise Unsupported("json.loads of %r" % (v,))
        return v.term
    class W(Overrides):
        def enter(self, it):
            seen.clear()
            self.c[subprocess.run] = run; self.c[json.loads] = loads
            self.g[("variantlib.plugins.loader", "VARIANT_PROVIDER_CACHE_TABLE")] = Cell("dict", ())
            super().enter(it)
            return NONE_T
    return W()


def command_line(t):
    """plugin references and whether --require-fixed, of  [python, script, option...]"""
    flags = []
    def options(t, pending, skip=0):
        """references in this part of the command line, whether it ends after --plugin-api"""
        if t.op == "SLit":
            refs = []
            for x in t.args[skip:]:
                if pending: refs.append(SLit(STR, x)); pending = False
                elif not is_const(x): raise Unsupported("command line: option %s" % show(x)[:100])
                elif cval(x) == "--plugin-api": pending = True
                elif cval(x) == "--require-fixed": flags.append(x)
                else: raise Unsupported("command line: option %s" % show(x)[:100])
            return SCat(STR, *refs), pending
        if t.op == "SCat":
            refs = []
            for n, x in enumerate(t.args):
                r, pending = options(x, pending, skip if n == 0 else 0)
                refs.append(r)
            return SCat(STR, *refs), pending
        if skip: raise Unsupported("command line %s" % show(t)[:300])
        if t.op == "Ite":
            (a, p), (b, q) = options(t.args[1], pending), options(t.args[2], pending)
            if p != q or flags: raise Unsupported("command line %s" % show(t)[:300])
            return Ite(t.args[0], a, b), p
        if t.op == "SComp" and not pending:
            n = len(flags)
            r, p = options(t.args[1], False)
            if p or len(flags) != n: raise Unsupported("command line %s" % show(t)[:300])
            return ir.rebuild(t, [t.args[0], r], t.data), False
        raise Unsupported("command line %s" % show(t)[:300])
    refs, pending = options(t, False, 2)
    if pending: raise Unsupported("command line ends after --plugin-api")
    return refs, bool(flags)


def install_worlds(it):
    import contracts.world as w
    import contracts.c_info as ci, contracts.c_plugins as cp
    it.contracts[ci.plugin_api_ok] = plugin_api_ok
    it.contracts[ci.no_line_or_tab] = no_line_or_tab
    it.contracts[cp.normalized] = normalized
    it.contracts[w.answering] = answering
    it.contracts[w.user_config] = user_config
    it.contracts[w.writing] = writing
    it.contracts[w.dumping] = dumping
    it.contracts[w.answering_by_query] = answering_by_query
    it.contracts[w.plain_path] = lambda it, a, k: App("plain_path", BOOL, it.unopt(a[0]))
    ir.APPS["plain_path"] = w.plain_path
    it.contracts[cp.is_marker] = lambda it, a, k: App("marker_ok", BOOL, it.unopt(a[0]))
    it.contracts[cp.is_requirement] = lambda it, a, k: App("req_ok", BOOL, it.unopt(a[0]))
    import contracts.c_resolver as cr
    it.contracts[cr.platform] = platform
    it.contracts[cr.norm_name] = lambda it, a, k: lib.method(it, App("canonical_name", STR, it.unopt(a[0])), "replace", [S("-"), S("_")], {})
    it.contracts[cr.is_version] = lambda it, a, k: App("version_ok", BOOL, it.unopt(a[0]))
    it.contracts[cr.version_of] = lambda it, a, k: tuple(App("version_" + f, INT, it.unopt(a[0])) for f in ("major", "minor", "micro"))
