"""Simulated plugin world: what each interpreter would answer, without starting it.

`subprocess.run` is replaced by a stand-in that recognises the library's plugin-query command line
and runs the library's own query program (variantlib.plugins._subprocess.main) in-process, with the
world's plugin modules installed.  Nothing in variantlib itself is replaced."""
import contextlib
import io
import json
import os
import sys
import traceback
import types
from unittest import mock


class P:
    """one plugin"""
    def __init__(self, ns, all=(), sup=(), aot=False, kind="ok"):
        self.ns, self.all, self.sup, self.aot, self.kind = ns, list(all), list(sup), aot, kind
    def __repr__(self): return "P(%r, all=%r, sup=%r, aot=%r, kind=%r)" % (self.ns, self.all, self.sup, self.aot, self.kind)
    def __eq__(self, o): return isinstance(o, P) and repr(self) == repr(o)
    __hash__ = None


class Cfg:
    """a feature config object as a plugin would define it"""
    def __init__(self, name, values, multi): self.name, self.values, self.multi_value = name, list(values), multi


def canonical(ref):
    """(module, attribute path)"""
    m, _, a = ref.partition(":")
    return (m.strip(), a.strip())


def _answers(p, which):
    if p.kind == "badtype": return [1]
    if p.kind == "notlist": return tuple(Cfg(*c) for c in which)
    if p.kind == "raises": raise RuntimeError("plugin failed")
    return [Cfg(*c) for c in which]


def fill(obj, p):
    obj.namespace = p.ns
    if p.aot: obj.is_aot_plugin = True
    obj.get_all_configs = lambda: _answers(p, p.all)
    if p.kind != "missing": obj.get_supported_configs = lambda: _answers(p, p.sup)


@contextlib.contextmanager
def modules(world):
    saved = {}
    new = {}
    try:
        for (m, attr), p in world.items():
            if m not in new:
                saved[m] = sys.modules.get(m)
                new[m] = sys.modules[m] = types.ModuleType(m)
            o = new[m]
            for a in attr.split(".") if attr else []:
                nxt = o.__dict__.get(a)
                if not isinstance(nxt, types.SimpleNamespace):
                    nxt = types.SimpleNamespace(); setattr(o, a, nxt)
                o = nxt
            fill(o, p)
        yield
    finally:
        for m, old in saved.items():
            if old is None: sys.modules.pop(m, None)
            else: sys.modules[m] = old


class Stand:
    """stand-in for subprocess.run; world_of(python) -> world"""
    def __init__(self, world_of): self.world_of, self.calls = world_of, []

    def __call__(self, cmd, *, input=None, **kw):
        from variantlib.plugins import _subprocess
        cmd = [os.fspath(c) for c in cmd]
        self.calls.append(cmd)
        out, err = io.StringIO(), io.StringIO()
        inp = input.decode() if isinstance(input, bytes) else input
        rc = 0
        old = sys.argv, sys.stdin, sys.stdout, sys.stderr
        with modules(self.world_of(cmd[0])):
            sys.argv, sys.stdin, sys.stdout, sys.stderr = ["loader.py"] + cmd[2:], io.StringIO(inp), out, err
            try: rc = _subprocess.main() or 0
            except SystemExit as e: rc = e.code if isinstance(e.code, int) else 1
            except Exception as e: rc = 1; err.write(repr(e))
            finally: sys.argv, sys.stdin, sys.stdout, sys.stderr = old
        if kw.get("check") and rc: raise __import__("subprocess").CalledProcessError(rc, cmd, out.getvalue().encode(), err.getvalue().encode())
        return types.SimpleNamespace(returncode=rc, stdout=out.getvalue().encode(), stderr=err.getvalue().encode(), args=cmd)


def forget():
    """empty the process-wide query cache"""
    import variantlib.plugins.loader as l
    t = getattr(l, "VARIANT_PROVIDER_CACHE_TABLE", None)
    if t is not None: t.clear()


@contextlib.contextmanager
def plugins(world, keep_cache=False):
    """world: {(module, attr): P} for every interpreter, or a function python -> world"""
    if not keep_cache: forget()
    s = Stand(world if callable(world) else lambda py: world)
    with mock.patch("subprocess.run", s):
        yield s
    if not keep_cache: forget()


class CfgDoc(dict):
    """a feature configuration in an interpreter's answer"""
    def __getattr__(self, n):
        try: return self[n]
        except KeyError: raise AttributeError(n) from None


@contextlib.contextmanager
def answering(answers):
    """every interpreter answers the query of a method with answers[method]; yields the list of the queries made:
    (method, plugin references, whether only fixed sets may be reported)"""
    forget()
    log = []
    def run(cmd, *, input=None, **kw):
        cmd = [os.fspath(c) for c in cmd]
        (method, _), = json.loads(input).items()
        log.append((method, [cmd[i + 1] for i, c in enumerate(cmd) if c == "--plugin-api"], "--require-fixed" in cmd))
        return types.SimpleNamespace(returncode=0, stdout=json.dumps({method: answers[method]}).encode(), stderr=b"", args=cmd)
    with mock.patch("subprocess.run", run):
        yield log
    forget()


@contextlib.contextmanager
def answering_by_query(first, other):
    """an interpreter answers the first query, whenever it is made, with one document, every other query with another one"""
    forget()
    seen = []
    def run(cmd, *, input=None, **kw):
        q = (os.fspath(cmd[0]), [os.fspath(c) for c in cmd[2:]], input)
        seen.append(q)
        return types.SimpleNamespace(returncode=0, stdout=json.dumps(first if q == seen[0] else other).encode(), stderr=b"", args=cmd)
    with mock.patch("subprocess.run", run):
        yield None
    forget()


def plain_path(s):
    """s is how its path is written"""
    import pathlib
    return s != "" and "\0" not in s and str(pathlib.Path(s)) == s


@contextlib.contextmanager
def user_config(ns=(), fp=None, pp=None):
    """the user's configuration file in force"""
    from variantlib.configuration import VariantConfiguration
    from variantlib.models.configuration import VariantConfiguration as Model
    m = Model(namespace_priorities=list(ns or []), feature_priorities=fp or {}, property_priorities=pp or {})
    VariantConfiguration.reset()
    with mock.patch.object(VariantConfiguration, "get_config", classmethod(lambda cls: m)):
        yield m
    VariantConfiguration.reset()


@contextlib.contextmanager
def writing():
    """records the metadata objects that are written out as text"""
    from variantlib.variants_json import VariantsJson
    out, real = [], VariantsJson.to_str
    def to_str(self):
        out.append(self)
        return real(self)
    with mock.patch.object(VariantsJson, "to_str", to_str):
        yield out


@contextlib.contextmanager
def dumping():
    """records the documents that are written as JSON, and whether their keys are put in order"""
    out, real = [], json.dumps
    def dumps(doc, **kw):
        out.append((doc, kw.get("sort_keys") is True))
        return real(doc, **kw)
    with mock.patch.object(json, "dumps", dumps):
        yield out


# ------------------------------------------------------------------ specification of a query
def requested(refs, world):
    """{namespace: (reference, plugin)} of the loaded references, or an error"""
    import re
    from pyvc.concrete import AnyError
    from variantlib.errors import ValidationError
    from contracts.c_info import plugin_api_ok
    if any(not plugin_api_ok(r) for r in refs): raise ValidationError("malformed reference")
    out = {}
    for ref in dict.fromkeys(canonical(r) for r in refs):
        p = world.get(ref)
        if p is None or p.kind == "missing": raise AnyError()
        if p.ns in out: raise RuntimeError("two plugins for one namespace")
        out[p.ns] = (ref, p)
    return out


def query(loaded, static, method, non_empty, fixed):
    """{namespace: [(feature, values, multi-value)]}"""
    from pyvc.concrete import AnyError
    from variantlib.errors import PluginError, ValidationError
    out = {n: [(f, list(vs), False) for f, vs in fs.items()] for n, fs in static.items() if len(fs) > 0 and n not in loaded}
    if fixed and any(not p.aot for _, p in loaded.values()): raise PluginError("not ahead-of-time")
    for n, (_, p) in loaded.items():
        if p.kind in ("badtype", "notlist", "raises"): raise PluginError("bad answer")
    for n, (_, p) in loaded.items():
        cfgs = p.all if method == "get_all_configs" else p.sup
        if len(cfgs) == 0:
            if non_empty: raise PluginError("no configs")
            continue
        out[n] = [(f, list(vs), m) for f, vs, m in cfgs]
    for n, cs in out.items():
        if not well_formed(n, cs): raise ValidationError("ill-formed answer")
    return out


def well_formed(n, cs):
    from contracts.c_models import is_name, is_value
    names = [c[0] for c in cs]
    return (is_name(n) and len(set(names)) == len(names) and
            all(is_name(f) and len(vs) > 0 and all(is_value(v) for v in vs) and len(set(vs)) == len(vs) for f, vs, _ in cs))
