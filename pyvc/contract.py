"""Contracts: executable specification functions attached to the real functions of /repo.

A contract names a real function, describes its arguments (used both as symbolic sorts and as
input generators), and gives a specification function in plain Python.  The specification is used
twice: interpreted symbolically against the function's current source by the verifier, and run by
CPython next to the real function (cross-check and search for replayable failing inputs)."""
from __future__ import annotations
import ast, copy, glob, importlib, os, random, sys, types

REPO = os.environ.get("VERIF_REPO", "/repo")


def setup_path():
    sys.dont_write_bytecode = True
    if REPO not in sys.path: sys.path.insert(0, REPO)
    sp = glob.glob("/opt/venv/lib/python3*/site-packages")
    for p in sp:           # the library's own dependencies come before the tools' copies
        if p not in sys.path: sys.path.insert(sys.path.index(REPO) + 1, p)
    import logging
    logging.disable(logging.CRITICAL)


setup_path()

CONTRACTS: dict = {}


class Contract:
    """see module docstring"""
    def __init__(self, cid, props, target, args, spec, **kw):
        self.cid, self.props, self.target, self.args, self.spec = cid, props, target, args, spec
        self.pre = kw.pop("pre", None)              # executable precondition over the arguments
        self.run = kw.pop("run", None)              # how to call the real code: run(*args) -> observable
        self.observe = kw.pop("observe", None)      # name of an observation applied to both results
        self.gen = kw.pop("gen", None)              # custom generator gen(g) -> tuple of args
        self.mode = kw.pop("mode", "prove")         # prove | bounded
        self.why_bounded = kw.pop("why_bounded", "")
        self.weight = kw.pop("weight", 1.0)
        self.noshare = kw.pop("noshare", False)     # result shares no mutable object with the arguments
        self.opts = kw.pop("opts", {})
        self.fixed = kw.pop("cases", None)          # extra fixed cases: callable -> iterable of arg tuples
        self.callees = kw.pop("callees", None)
        self.entry = kw.pop("entry", None)          # function interpreted by the verifier (default: run or target)
        self.copy_args = kw.pop("copy_args", True)
        self.loop = kw.pop("loop", None)
        self.obligations = kw.pop("obligations", None)   # obligations decided by automata: () -> [(name, ok, output, witness args or None)]
        assert not kw, kw

    def real(self):
        mod, _, qual = self.target.partition(":")
        o = importlib.import_module(mod)
        for p in qual.split("."):
            o = getattr(o, p)
        return o


def contract(cid, props, target, args, **kw):
    if isinstance(props, str): props = [props]
    def deco(spec):
        c = Contract(cid, props, target, args, spec, **kw)
        assert cid not in CONTRACTS, cid
        CONTRACTS[cid] = c
        return spec
    return deco


# ------------------------------------------------------------------ mined constants
def mine(dirname=None):
    """string and small integer constants of the current source (candidates for special cases)"""
    strs, ints = set(), set()
    for f in glob.glob(os.path.join(REPO, "variantlib", "**", "*.py"), recursive=True):
        try: t = ast.parse(open(f, encoding="utf8").read())
        except SyntaxError: continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, str) and 0 < len(n.value) <= 24: strs.add(n.value)
                elif isinstance(n.value, int) and not isinstance(n.value, bool) and 1 < n.value <= 40: ints.add(n.value)
    return sorted(strs), sorted(ints)


_BASE_NS = ["a", "b", "ns", "x_1", "cuda", "9", "_"]
_BASE_FEAT = ["f", "g", "feat", "a", "0", "driver", "_x"]
_BASE_VAL = ["v", "w", "1", "10", "1.0", "a", "..", "12.6", "2", "9"]
ALLOWED = set("abcdefghijklmnopqrstuvwxyz0123456789_")


class Gen:
    """random source of one case; small per-case pools make collisions likely"""
    mined = None
    def __init__(self, seed, size=None):
        if Gen.mined is None: Gen.mined = mine()
        self.r = r = random.Random(seed)
        strs, ints = Gen.mined
        self.big = r.random() < 0.04
        names = [s for s in strs if set(s) <= ALLOWED]
        vals = [s for s in strs if set(s) <= ALLOWED | {"."}]
        def pool(base, extra, lo, hi):
            n = r.randint(lo, hi)
            p = []
            for _ in range(n):
                k = r.random()
                if k < 0.12 and extra: p.append(r.choice(extra))
                elif k < 0.30: p.append("".join(r.choice("abz01_9m") for _ in range(r.randint(1, 3 if r.random() < .8 else 20))))
                else: p.append(r.choice(base))
            return p
        self.NS = pool(_BASE_NS, names, 1, 4)
        self.FE = pool(_BASE_FEAT, names, 1, 4)
        self.VA = pool(_BASE_VAL, vals, 1, 5)
        self.maxlen = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
        self.big = r.random() < 0.05
        if self.big:
            self.maxlen = r.choice([8, 12] + [i + 1 for i in ints if i < 36])
            self.VA += ["%d" % k for k in range(min(self.maxlen, 20))]
            self.FE += ["f%d" % k for k in range(min(self.maxlen, 20))]
            if r.random() < .5: self.NS += ["n%d" % k for k in range(min(self.maxlen, 20))]

        if r.random() < 0.08:      # names that collide when glued together
            sep = r.choice(["", "_", "_", "__"])
            self.NS += ["a", "a" + sep + "b"]; self.FE += ["b" + sep + "c", "c", "c" + sep + "d"]; self.VA += ["d", "c" + sep + "d", "c.d"]
            r.shuffle(self.NS); self.NS = self.NS[:3] + ["a", "a" + sep + "b"]; self.FE = self.FE[:2] + self.FE[-3:]

    def len(self, lo=0):
        return max(lo, self.r.randint(0, self.maxlen))
    def p(self, x): return self.r.random() < x
    def pick(self, xs): return self.r.choice(xs)
    def ns(self): return self.r.choice(self.NS)
    def feat(self): return self.r.choice(self.FE)
    def val(self): return self.r.choice(self.VA)
    def uniq(self, f, n):
        out = []
        if self.big and n > 0 and self.r.random() < .4: n = max(n, 2 * self.maxlen)
        for _ in range(n):
            v = f()
            if v not in out: out.append(v)
        return out
    def text(self):
        r = self.r
        k = r.random()
        if k < .35: return self.pick([self.ns, self.feat, self.val])()
        if k < .5: return r.choice(Gen.mined[0])
        if k < .6: return r.choice(["", " ", "\n", "a\n", "null", "A", "é", "٣", "a b", "a-b", "none", "Null", "\u2028", "a.b", "ſ", "K", "_", ".", "::", "a ::b", "_" * 17, "a" * 16, "a" * 17, "x"*15+"."])
        n = r.choice([0, 1, 2, 3, 5, 8, 15, 16, 17])
        return "".join(r.choice("ab09_.:- AZ\n\té٣") for _ in range(n))
    def json(self, depth=2):
        r = self.r
        k = r.random()
        if depth <= 0 or k < .6:
            return r.choice([None, True, False, 0, 1, 2.5, 1.0, "", "a", self.text(), self.ns(), self.val()])
        if k < .8: return [self.json(depth - 1) for _ in range(r.randint(0, 3))]
        return {self.text() if r.random() < .7 else self.ns(): self.json(depth - 1) for _ in range(r.randint(0, 3))}


# ------------------------------------------------------------------ argument types
class T:
    def gen(self, g): raise NotImplementedError


class Named(T):
    def __init__(self, name, gen): self.name, self._g = name, gen
    def gen(self, g): return self._g(g)
    def __repr__(self): return self.name


def _vm(name):
    import variantlib.models.variant as m
    return getattr(m, name)


NSN = Named("ns", lambda g: g.ns())
FEAT = Named("feat", lambda g: g.feat())
VAL = Named("val", lambda g: g.val())
TEXT = Named("text", lambda g: g.text())
BOOL = Named("bool", lambda g: g.p(.5))
INT = Named("int", lambda g: g.r.randint(-1, 5))
JSON = Named("json", lambda g: g.json(3))
VPROP = Named("vprop", lambda g: _vm("VariantProperty")(g.ns(), g.feat(), g.val()))
VFEAT = Named("vfeat", lambda g: _vm("VariantFeature")(g.ns(), g.feat()) if g.p(.9) else _vm("VariantProperty")(g.ns(), g.feat(), g.val()))


def gen_vdesc(g):
    if g.p(.12): return _vm("VariantDescription")([])
    props = []
    for _ in range(g.r.randint(1, max(1, g.maxlen))):
        p = _vm("VariantProperty")(g.ns(), g.feat(), g.val())
        if p not in props: props.append(p)
    return _vm("VariantDescription")(props)


VDESC = Named("vdesc", gen_vdesc)


class L(T):
    def __init__(self, t, uniq=False): self.t, self.uniq = t, uniq
    def gen(self, g):
        xs = [self.t.gen(g) for _ in range(g.len())]
        if self.uniq:
            out = []
            for x in xs:
                if x not in out: out.append(x)
            return out
        # repeat elements sometimes
        if xs and g.p(.2): xs.insert(g.r.randint(0, len(xs)), copy.copy(g.pick(xs)))
        return xs
    def __repr__(self): return "list[%r]" % self.t


class O(T):
    def __init__(self, t, p=.25): self.t, self.p = t, p
    def gen(self, g): return None if g.p(self.p) else self.t.gen(g)
    def __repr__(self): return "opt[%r]" % self.t


class D(T):
    def __init__(self, k, v): self.k, self.v = k, v
    def gen(self, g): return {self.k.gen(g): self.v.gen(g) for _ in range(g.len())}
    def __repr__(self): return "dict[%r,%r]" % (self.k, self.v)


class SetT(T):
    def __init__(self, t): self.t = t
    def gen(self, g): return {self.t.gen(g) for _ in range(g.len())}
    def __repr__(self): return "set[%r]" % self.t


class Star(T):
    """*args"""
    def __init__(self, t): self.t = t
    def gen(self, g): return tuple(self.t.gen(g) for _ in range(g.r.randint(0, 4)))
    def __repr__(self): return "*%r" % self.t


NS_PRIO = L(NSN)
FEAT_PRIO = D(NSN, L(FEAT))
PROP_PRIO = D(NSN, D(FEAT, L(VAL)))
