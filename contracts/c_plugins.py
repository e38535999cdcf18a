"""C12 C13 C14 C15 C23 C07: loading plugins, querying them, and the API built on the answers."""
import io
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
from unittest import mock

from packaging.markers import InvalidMarker, Marker
from packaging.requirements import InvalidRequirement, Requirement

from pyvc.contract import *
from pyvc.concrete import AnyError
from contracts.world import *
from contracts.c_info import provider_doc, _APIS, _BADAPI, _REQS, _ENIF, plugin_api_ok, no_line_or_tab, to_doc, view, gen_info, common_ok
from contracts.c_models import over, gen_fcfg, gen_label, is_name, is_value, key3, spec_label, DuckConfig, LABEL_CHARS
from contracts.c_resolver import FakeDist, feature_order, gen_dists, gen_env, merged, norm_name, platform, spec_agg_ns, spec_agg_feat, spec_agg_prop, spec_filter_variants, spec_resolve, values_of
from variantlib.errors import PluginError, ValidationError
from variantlib.models.provider import ProviderConfig, VariantFeatureConfig
from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty
from variantlib.models.variant_info import ProviderInfo, VariantInfo
from variantlib.plugins.loader import EntryPointPluginLoader, ListPluginLoader, PluginLoader
from variantlib.pyproject_toml import VariantPyProjectToml
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

_REFS = ["vp_a:Cls", "vp_b", "vp_pkg.mod:Cls.inner", "vp_a:Other", "vp_c : x", "vp_d\t:\ny", "vp_a", "vp_e:a.b.c"]
_VREQ = ["vp-a", "vp_b >= 1.2", "vp-c[x]==1; python_version > '3'", "Vp.Pkg", "vp_d @ https://e.org/x.whl", "vp-x-y"]


# ------------------------------------------------------------------ generators
def gen_cfgs(g, lo=0):
    names = g.uniq(g.feat, g.r.randint(max(lo, 1) if g.p(.85) else lo, 3))
    return [(f, g.uniq(g.val, g.r.randint(1, 4)), g.p(.3)) for f in names]


def gen_plugin(g, ns=None):
    al = gen_cfgs(g)
    if g.p(.5) and al:         # supported is part of what exists
        sup = [(f, [v for v in vs if g.p(.7)] or vs[:1], m) for f, vs, m in al if g.p(.8)]
    else: sup = gen_cfgs(g)
    if g.p(.02) and sup: sup[0] = (sup[0][0], sup[0][1] + ["BAD"], False)
    kind = "ok" if g.p(.96) else g.pick(["missing", "badtype", "notlist", "raises"])
    return P(ns or g.ns(), al, sup, g.p(.5), kind)


def reference(p):
    return p.plugin_api if p.plugin_api is not None else Requirement(p.requires[0]).name.replace("-", "_")


def gen_providers(g, bad=.04):
    out = {}
    for n in g.uniq(g.ns, g.r.randint(0, 4)):
        it = g.p(.55)
        req = [g.pick(_VREQ) for _ in range(g.r.randint(1 if it else 0, 2))]
        api = None if g.p(.3) else (g.pick(_BADAPI) if g.p(bad) else g.pick(_REFS))
        if api is None and req and g.p(.7): req[0] = "vp-r%d" % len(out)
        out[n] = ProviderInfo(plugin_api=api, enable_if=None if g.p(.6) else g.pick(["python_version >= '3'", "python_version < '3'", "sys_platform == 'linux'", "sys_platform == 'win32'", "os_name == 'nt' or os_name == 'posix'"]),
                              install_time=it, optional=g.p(.3), requires=req)
    return out


def gen_world(g, providers):
    w = {}
    for n, p in providers.items():
        if p.plugin_api is None and not p.requires: continue
        ref = canonical(reference(p))
        if ref not in w and g.p(.98): w[ref] = gen_plugin(g, n if g.p(.93) else g.ns())
    if g.p(.3): w[canonical(g.pick(_REFS))] = gen_plugin(g)
    return w


def gen_enable(g): return g.pick([True, False, False, [g.ns() for _ in range(g.r.randint(0, 2))]])
def gen_filter(g): return None if g.p(.5) else [g.ns() for _ in range(g.r.randint(0, 3))]


PINFO = Named("pinfo", None)
ENABLE = Named("enable", gen_enable)


def gen_static(g, providers, p=.6):
    out = {}
    for n, pr in providers.items():
        if not pr.install_time and g.p(p) or g.p(.05):
            out[n] = {f: g.uniq(g.val, g.r.randint(1, 3)) for f in g.uniq(g.feat, g.r.randint(0 if g.p(.2) else 1, 3))}
    return out


def info(providers, static=None, nsp=None, fp=None, pp=None):
    return VariantInfo(namespace_priorities=list(providers) if nsp is None else nsp, feature_priorities=fp or {}, property_priorities=pp or {},
                       providers=providers, static_properties=static or {})


# ------------------------------------------------------------------ C12
def enabled(n, p, enable, only, aot):
    from_metadata = not p.install_time and (len(p.requires) == 0 or not aot)
    return (not from_metadata and (only is None or n in only)
            and (not p.optional or (enable if type(enable) is bool else n in enable))
            and (p.enable_if is None or Marker(p.enable_if).evaluate()))


def selected(providers, enable, only, aot):
    return [spec_reference(p) for n, p in providers.items() if spec_enabled(p, n, enable, only, aot)]


def gen_load(g):
    pr = gen_providers(g)
    return (pr, gen_enable(g), gen_filter(g), g.p(.5), gen_world(g, pr))


def _run_load(providers, enable, only, aot, world):
    with plugins(world) as s:
        with PluginLoader(info(providers), enable_optional_plugins=enable, filter_plugins=only, include_aot_plugins=aot) as l:
            return ({n: canonical(r) for n, r in l.plugin_api_values.items()}, sorted(l.namespaces), asked(s))


def asked(s):
    """references for which a plugin was imported"""
    out = []
    for c in s.calls:
        out += [canonical(c[i + 1]) for i in range(len(c)) if c[i] == "--plugin-api"]
    return sorted(set(out))


@contract("C12.load", ["C12"], "variantlib.plugins.loader:PluginLoader._load_all_plugins", {}, gen=gen_load, run=_run_load, weight=2)
def spec_load(providers, enable, only, aot, world):
    m = requested(selected(providers, enable, only, aot), world)
    return ({n: ref for n, (ref, _) in m.items()}, sorted(m), sorted(ref for ref, _ in m.values()))


def _run_enabled(p, n, enable, only, aot):
    return PluginLoader(info({n: p}), enable_optional_plugins=enable, filter_plugins=only, include_aot_plugins=aot)._plugin_enabled(n, p)


def gen_enabled(g):
    pr = {}
    while not pr: pr = gen_providers(g)
    n, p = next(iter(pr.items()))
    return (p, n, gen_enable(g) if g.p(.7) else [n], gen_filter(g) if g.p(.7) else [n], g.p(.5))


def is_marker(s):
    try: Marker(s)
    except InvalidMarker: return False
    return True


def is_requirement(s):
    try: Requirement(s)
    except InvalidRequirement: return False
    return True


def marker_valid(p, n, enable, only, aot): return (p.enable_if is None or is_marker(p.enable_if)) and (not p.install_time or len(p.requires) > 0)
def queried(p, n, enable, only, aot): return len(p.requires) > 0


@contract("C12.enabled", ["C12", "C23", "C07"], "variantlib.plugins.loader:PluginLoader._plugin_enabled",
          {"p": PINFO, "n": NSN, "enable": ENABLE, "only": O(L(NSN)), "aot": BOOL}, gen=gen_enabled, run=_run_enabled, weight=.6,
          opts={"result": "Bool", "given": marker_valid, "implies": queried, "lemma": "C12.enabled_lemma",
                "bind": lambda self, namespace, provider_data: (provider_data, namespace, self._enable_optional_plugins, self._filter_plugins, self._include_aot_plugins)})
def spec_enabled(p, n, enable, only, aot): return enabled(n, p, enable, only, aot)


def _run_enabled_lemma(p, n, enable, only, aot): return not spec_enabled(p, n, enable, only, aot) or queried(p, n, enable, only, aot)


@contract("C12.enabled_lemma", ["C12"], "variantlib.plugins.loader:PluginLoader._plugin_enabled",
          {"p": PINFO, "n": NSN, "enable": ENABLE, "only": O(L(NSN)), "aot": BOOL}, gen=gen_enabled, pre=marker_valid, run=_run_enabled_lemma, weight=.1)
def spec_enabled_lemma(p, n, enable, only, aot): return True


def gen_ref_provider(g):
    p = ProviderInfo(plugin_api=None if g.p(.5) else g.pick(_REFS), requires=[g.pick(_VREQ + _REQS) for _ in range(g.r.randint(1, 3))], install_time=g.p(.7))
    return (p,)


def pre_reference(p): return len(p.requires) > 0
def named(p): return p.plugin_api is not None or is_requirement(p.requires[0])
def run_reference(p): return p.object_reference


@contract("C12.reference", ["C12"], "variantlib.models.variant_info:ProviderInfo.object_reference", {"p": PINFO}, pre=pre_reference, gen=gen_ref_provider,
          run=run_reference, weight=.4, opts={"result": "Str", "given": named, "lemma": "C12.reference_lemma", "bind": lambda self: (self,)})
def spec_reference(p): return reference(p)


def _run_reference_lemma(p):
    spec_reference(p)
    return True


@contract("C12.reference_lemma", ["C12"], "variantlib.models.variant_info:ProviderInfo.object_reference", {"p": PINFO},
          pre=lambda p: len(p.requires) > 0 and named(p), gen=gen_ref_provider, run=_run_reference_lemma, weight=.1)
def spec_reference_lemma(p): return True


def normalized(ref):
    m, _, a = ref.partition(":")
    return m.strip() + ":" + a.strip() if a else m.strip()


def gen_answered(g, refs):
    """what the interpreter says about the loaded plugins: reference -> namespace"""
    ks = list(dict.fromkeys(normalized(r) for r in refs))
    if g.p(.1): ks.append(g.pick(_REFS))
    ns = g.uniq(g.ns, len(ks)) if g.p(.9) else [g.ns() for _ in ks]
    return dict(zip(ks, ns))


def gen_requests(g):
    pr = gen_providers(g, .02)
    en, only, aot = gen_enable(g), gen_filter(g), g.p(.5)
    if g.p(.6): en, only = True, None
    return (pr, en, only, aot, gen_answered(g, [reference(p) for p in pr.values() if p.requires]))


def run_requests(providers, enable, only, aot, answer):
    with answering({"namespaces": answer}) as asked:
        with PluginLoader(info(providers), enable_optional_plugins=enable, filter_plugins=only, include_aot_plugins=aot) as l:
            return (l.plugin_api_values, l.namespaces, list(asked))


def well_formed_request(providers, enable, only, aot, answer):
    return well_formed_providers(providers)


def well_formed_providers(providers):
    """the validated documents are: an install-time provider names packages, markers and requirements parse"""
    return all((p.enable_if is None or is_marker(p.enable_if)) and (not p.install_time or len(p.requires) > 0)
               and all(is_requirement(r) for r in p.requires) for p in providers.values())


@contract("C12.requests", ["C12"], "variantlib.plugins.loader:PluginLoader", {"providers": D(NSN, PINFO), "enable": ENABLE, "only": O(L(NSN)), "aot": BOOL,
                                                                             "answer": D(TEXT, NSN)}, gen=gen_requests, run=run_requests, pre=well_formed_request,
          callees=["C12.enabled", "C12.reference"], weight=.6)
def spec_requests(providers, enable, only, aot, answer):
    refs = selected(providers, enable, only, aot)
    if any(not plugin_api_ok(r) for r in refs): raise ValidationError("malformed reference")
    if len(refs) == 0: return ({}, [], [])
    if len(set(answer.values())) != len(answer): raise RuntimeError("two plugins for one namespace")
    return ({n: r for r, n in answer.items()}, list(answer.values()), [("namespaces", [normalized(r) for r in refs], False)])


def gen_listed(g):
    refs = [g.pick(_REFS) if g.p(.95) else g.pick(_BADAPI + [g.text()]) for _ in range(g.r.randint(0, 4))]
    return (refs, gen_answered(g, [r for r in refs if plugin_api_ok(r)]))


def run_listed(refs, answer):
    with answering({"namespaces": answer}) as asked:
        with ListPluginLoader(refs) as l:
            return (l.plugin_api_values, l.namespaces, list(asked))


@contract("C12.listed", ["C12"], "variantlib.plugins.loader:BasePluginLoader._load_all_plugins_from_tuple", {"refs": L(TEXT), "answer": D(TEXT, NSN)},
          gen=gen_listed, run=run_listed, weight=.6)
def spec_listed(refs, answer):
    if any(not plugin_api_ok(r) for r in refs): raise ValidationError("malformed reference")
    if len(refs) == 0: return ({}, [], [])
    if len(set(answer.values())) != len(answer): raise RuntimeError("two plugins for one namespace")
    return ({n: r for r, n in answer.items()}, list(answer.values()), [("namespaces", [normalized(r) for r in refs], False)])


def gen_list_load(g):
    refs = [g.pick(_REFS) if g.p(.9) else g.pick(_BADAPI + [g.text()]) for _ in range(g.r.randint(0, 4))]
    w = {canonical(r): gen_plugin(g) for r in refs if g.p(.98)}
    return (refs, w)


def _run_list_load(refs, world):
    with plugins(world):
        with ListPluginLoader(refs) as l:
            return {n: canonical(r) for n, r in l.plugin_api_values.items()}


@contract("C12.list", ["C12"], "variantlib.plugins.loader:BasePluginLoader._load_all_plugins_from_tuple", {}, gen=gen_list_load, run=_run_list_load)
def spec_list_load(refs, world):
    return {n: ref for n, (ref, _) in requested(refs, world).items()}


# ------------------------------------------------------------------ C13
def observed(cfgs):
    return {n: (c.namespace, [(f.name, f.values, f.multi_value) for f in c.configs]) for n, c in cfgs.items()}


def spec_observed(q): return {n: (n, cs) for n, cs in q.items()}


_METHODS = [("get_all_configs", True, False), ("get_supported_configs", False, False), ("get_supported_configs", False, True)]


def gen_query(g):
    pr = gen_providers(g, 0)
    return (pr, gen_static(g, pr), gen_world(g, pr), g.r.randrange(3))


def _query(loader, m):
    if m == 0: return loader.get_all_configs()
    return loader.get_supported_configs(require_fixed=True) if m == 2 else loader.get_supported_configs()


def _run_query(providers, static, world, m):
    with plugins(world):
        with PluginLoader(info(providers, static), enable_optional_plugins=True, include_aot_plugins=True) as l:
            return observed(_query(l, m))


@contract("C13.query", ["C13"], "variantlib.plugins.loader:BasePluginLoader._get_configs", {}, gen=gen_query, run=_run_query, weight=2)
def spec_query(providers, static, world, m):
    loaded = requested(selected(providers, True, None, True), world)
    return spec_observed(query(loaded, static, *_METHODS[m]))


CFGDOC = Named("cfgdoc", lambda g: CfgDoc(zip(("name", "values", "multi_value"), (gen_cfgs(g, 1) or [("f", ["v"], False)])[0])))


def gen_configs(g):
    pr, en, only, aot, names = gen_requests(g)
    cfgs = {r: [CfgDoc(name=f, values=vs, multi_value=m) for f, vs, m in gen_cfgs(g)] if g.p(.9) else [] for r in names}
    return (pr, gen_static(g, {n: ProviderInfo(install_time=False) for n in list(pr) + g.uniq(g.ns, g.r.choice([0, 1, 1, 12]))}), names, cfgs)


def documents_ok(providers, static, names, cfgs):
    """the interpreter answers for the plugins it was asked for; what is answered and what the package states is well-formed
    (the constructors refuse anything else: C02.feature_config, C02.provider_config)"""
    return (well_formed_providers(providers) and all(r in names for r in cfgs) and all(is_name(n) for n in names.values())
            and all(is_name(n) for n in static) and all(is_name(f) for fs in static.values() for f in fs)
            and all(len(vs) > 0 for fs in static.values() for vs in fs.values()) and all(is_value(v) for fs in static.values() for vs in fs.values() for v in vs)
            and all(len(set(vs)) == len(vs) for fs in static.values() for vs in fs.values())
            and all(len(set(c["name"] for c in cs)) == len(cs) for cs in cfgs.values()) and all(c_ok(c) for cs in cfgs.values() for c in cs))


def c_ok(c):
    return is_name(c["name"]) and len(c["values"]) > 0 and all(is_value(v) for v in c["values"]) and len(set(c["values"])) == len(c["values"])


def configs_contract(cid, method, aot, non_empty, fixed):
    def run(providers, static, names, cfgs):
        with answering({"namespaces": names, method: cfgs}) as asked:
            with PluginLoader(info(providers, static), enable_optional_plugins=True, include_aot_plugins=aot) as l:
                if fixed: r = l.get_supported_configs(require_fixed=True)
                elif non_empty: r = l.get_all_configs()
                else: r = l.get_supported_configs()
                return (observed(r), list(asked))

    def spec(providers, static, names, cfgs):
        refs = selected(providers, True, None, aot)
        if any(not plugin_api_ok(r) for r in refs): raise ValidationError("malformed reference")
        loaded = names if len(refs) > 0 else {}
        if len(set(loaded.values())) != len(loaded): raise RuntimeError("two plugins for one namespace")
        log = [("namespaces", [normalized(r) for r in refs], False)] if len(refs) > 0 else []
        packaged = {n: [(f, vs, False) for f, vs in fs.items()] for n, fs in static.items() if len(fs) > 0 and n not in loaded.values()}
        if len(loaded) == 0: return (spec_observed(packaged), log)
        answered = {loaded[r]: [(c["name"], c["values"], c["multi_value"]) for c in cs] for r, cs in cfgs.items() if len(cs) > 0}
        if non_empty and any(len(cs) == 0 for cs in cfgs.values()): raise PluginError("no configs")
        return (spec_observed({**packaged, **answered}), log + [(method, list(loaded), fixed)])
    contract(cid, ["C13"], "variantlib.plugins.loader:BasePluginLoader._get_configs",
             {"providers": D(NSN, PINFO), "static": D(NSN, D(FEAT, L(VAL))), "names": D(TEXT, NSN), "cfgs": D(TEXT, L(CFGDOC))},
             gen=gen_configs, run=run, pre=documents_ok, callees=["C12.enabled", "C12.reference"])(spec)


configs_contract("C13.all_configs", "get_all_configs", True, True, False)
configs_contract("C13.supported_configs", "get_supported_configs", False, False, False)
configs_contract("C13.fixed_configs", "get_supported_configs", True, False, True)


def gen_repeat(g):
    refs = g.uniq(lambda: g.pick(_REFS), g.r.choice([0, 1, 2, 3, 4, 5]))
    names = gen_answered(g, refs)
    return (refs, names, {r: [CfgDoc(name=f, values=vs, multi_value=m) for f, vs, m in gen_cfgs(g)] if g.p(.9) else [] for r in names}, g.p(.5))


def repeat_ok(refs, names, cfgs, fixed):
    return (all(plugin_api_ok(r) for r in refs) and all(r in names for r in cfgs) and all(is_name(n) for n in names.values()) and len(set(names.values())) == len(names)
            and all(len(set(c["name"] for c in cs)) == len(cs) for cs in cfgs.values()) and all(c_ok(c) for cs in cfgs.values() for c in cs))


def run_repeat(refs, names, cfgs, fixed):
    with answering({"namespaces": names, "get_supported_configs": cfgs}):
        with ListPluginLoader(refs) as l:
            one = observed(l.get_supported_configs(require_fixed=fixed))
            return (one, observed(l.get_supported_configs(require_fixed=fixed)), observed(l.get_supported_configs(require_fixed=not fixed)))


@contract("C13.repeat", ["C13"], "variantlib.plugins.loader:BasePluginLoader._get_configs",
          {"refs": L(TEXT), "names": D(TEXT, NSN), "cfgs": D(TEXT, L(CFGDOC)), "fixed": BOOL}, gen=gen_repeat, run=run_repeat, pre=repeat_ok)
def spec_repeat(refs, names, cfgs, fixed):
    """what a query returned is not changed by having been asked for, or by asking for something else"""
    if len(refs) == 0 or len(names) == 0: return ({}, {}, {})
    r = spec_observed({names[r]: [(c["name"], c["values"], c["multi_value"]) for c in cs] for r, cs in cfgs.items() if len(cs) > 0})
    return (r, r, r)


_PYS = ["/py/one/bin/python", "/py/two/bin/python", "py", "/py/one/bin/python3"]


def gen_cached(g):
    refs = g.uniq(lambda: g.pick(_REFS), g.r.choice([0, 1, 2, 3]))
    args = g.pick([[], ["--require-fixed"], ["--x"], ["--require-fixed", "--x"]])
    q2 = (g.pick(_PYS), g.pick([refs, refs[::-1], refs[:1], [g.pick(_REFS)]]), g.p(.5), g.pick([[], ["--require-fixed"], ["--x"]]))
    py, all1 = g.pick(_PYS), g.p(.5)
    if g.p(.4): q2 = tuple(a if g.p(.8) else b for a, b in zip((py, refs, all1, args), q2))
    return (py, refs, all1, args) + q2 + (g.json(2), g.json(2))


def _run_cached(py1, refs1, all1, args1, py2, refs2, all2, args2, first, other):
    with answering_by_query(first, other):
        out = []
        for py, refs, all_, args in ((py1, refs1, all1, args1), (py2, refs2, all2, args2), (py1, refs1, all1, args1)):
            l = ListPluginLoader([], venv_python_executable=pathlib.Path(py))
            out.append(l._call_subprocess(refs, {"get_all_configs": {}} if all_ else {"get_supported_configs": {}}, args))
        return out


@contract("C13.cached", ["C13"], "variantlib.plugins.loader:BasePluginLoader._call_subprocess",
          {"py1": TEXT, "refs1": L(TEXT), "all1": BOOL, "args1": L(TEXT), "py2": TEXT, "refs2": L(TEXT), "all2": BOOL, "args2": L(TEXT), "first": JSON, "other": JSON},
          gen=gen_cached, run=_run_cached, pre=lambda py1, refs1, all1, args1, py2, *rest: plain_path(py1) and plain_path(py2))
def spec_cached(py1, refs1, all1, args1, py2, refs2, all2, args2, first, other):
    """every query is answered with what its own interpreter says to that command line, whatever has been asked before"""
    one, two = list(args1) + [x for r in refs1 for x in ("--plugin-api", r)], list(args2) + [x for r in refs2 for x in ("--plugin-api", r)]
    same = py1 == py2 and one == two and all1 == all2
    return [first, first if same else other, first]


def gen_history(g):
    pys = ["/py/one/bin/python", "/py/two/bin/python", None]
    refs = g.uniq(lambda: g.pick(_REFS), 3)
    nss = g.uniq(g.ns, 4)
    worlds = {str(p): {canonical(r): gen_plugin(g, g.pick(nss)) for r in refs if g.p(.97)} for p in pys}
    return (worlds, [(g.pick(pys), [g.pick(refs) for _ in range(g.r.randint(1, 2))], g.r.randrange(3)) for _ in range(g.r.randint(1, 6))])


def _world_of(worlds):
    return lambda py: worlds.get(py if py in worlds else "None", {})


def _run_history(worlds, steps):
    forget()
    out = []
    with plugins(_world_of(worlds), keep_cache=True):
        for py, refs, m in steps:
            try:
                with ListPluginLoader(refs, venv_python_executable=None if py is None else pathlib.Path(py)) as l:
                    out.append(observed(_query(l, m)))
            except (PluginError, RuntimeError, ValueError): out.append("error")
    forget()
    return out


@contract("C13.history", ["C13"], "variantlib.plugins.loader:BasePluginLoader._call_subprocess", {}, gen=gen_history, run=_run_history, weight=2)
def spec_history(worlds, steps):
    out = []
    for py, refs, m in steps:
        try: out.append(spec_observed(query(requested(refs, worlds[str(py)]), {}, *_METHODS[m])))
        except (PluginError, RuntimeError, ValueError, AnyError): out.append("error")
    return out


@contract("C13.properties", ["C13", "C07", "C23"], "variantlib.models.provider:ProviderConfig.to_list_of_properties",
          {"self": Named("pcfg", lambda g: ProviderConfig(g.ns(), [VariantFeatureConfig(f, vs, m) for f, vs, m in gen_cfgs(g, 1)]))})
def spec_properties(self):
    return [VariantProperty(self.namespace, f.name, v) for f in self.configs for v in f.values]


def _gen_process(g):
    k = g.r.random()
    if k < .15: return (g.json(2),)
    xs = [Cfg(*c) for c in gen_cfgs(g)] if g.p(.5) else [gen_fcfg(g) for _ in range(g.len())]
    if g.p(.15): xs.insert(g.r.randint(0, len(xs)), g.json(1))
    return (xs,)


class _Plug:
    namespace = "x"


def _run_process(configs):
    from variantlib.plugins._subprocess import process_configs
    return process_configs(configs, _Plug(), "m")


Cfg.__eq__ = lambda a, b: isinstance(b, Cfg) and a.__dict__ == b.__dict__


@contract("C13.process_configs", ["C13"], "variantlib.plugins._subprocess:process_configs", {}, gen=_gen_process, run=_run_process, weight=.5)
def spec_process(configs):
    if not isinstance(configs, list) or not all(all(hasattr(c, a) for a in ("name", "values", "multi_value")) for c in configs): raise TypeError("not configs")
    return [{"name": c.name, "values": c.values, "multi_value": c.multi_value} for c in configs]


_REAL_SRC = '''
class C:
    def __init__(self, n, v, m): self.name, self.values, self.multi_value = n, v, m
class %s:
    namespace = %r
    is_aot_plugin = %r
    @staticmethod
    def get_all_configs(): return [C(*c) for c in %r]
    @staticmethod
    def get_supported_configs(): return [C(*c) for c in %r]
'''


def gen_real(g):
    w = {}
    for i in range(g.r.randint(1, 2)):
        p = gen_plugin(g, "n%d" % i); p.kind = "ok"
        w[("vpreal%d" % i, "K")] = p
    return (w, g.r.randrange(3))


def _run_real(world, m):
    forget()
    d = tempfile.mkdtemp(prefix="vp-")
    old = os.environ.get("PYTHONPATH")
    try:
        for (mod, cls), p in world.items():
            with open(os.path.join(d, mod + ".py"), "w") as f: f.write(_REAL_SRC % (cls, p.ns, p.aot, p.all, p.sup))
        os.environ["PYTHONPATH"] = d
        with ListPluginLoader(["%s:%s" % r for r in world], venv_python_executable=pathlib.Path(sys.executable)) as l:
            return observed(_query(l, m))
    finally:
        if old is None: os.environ.pop("PYTHONPATH", None)
        else: os.environ["PYTHONPATH"] = old
        shutil.rmtree(d, ignore_errors=True)
        forget()


@contract("C13.real_interpreter", ["C13", "C12"], "variantlib.plugins.loader:BasePluginLoader._run_call_subprocess", {}, gen=gen_real, run=_run_real, mode="bounded",
          weight=.7, why_bounded="starts a real interpreter; process creation is outside any deductive tool's reach")
def spec_real(world, m):
    return spec_observed(query(requested(["%s:%s" % r for r in world], world), {}, *_METHODS[m]))


def gen_cmd(g):
    refs = g.uniq(lambda: g.pick(_REFS), g.r.randint(0, 3))
    w = {canonical(r): gen_plugin(g) for r in refs}
    return (refs, w, g.p(.5), O(NSN).gen(g), O(FEAT).gen(g))


def _run_cmd(refs, world, all_, ns, feat):
    from variantlib.commands.plugins.get_configs import get_configs
    out = io.StringIO(); old = sys.stdout
    with plugins(world):
        with ListPluginLoader(refs) as l:
            l.get_all_configs if all_ else None
            sys.stdout = out
            try: get_configs(["-a" if all_ else "-s"] + (["-n", ns] if ns is not None else []) + (["-f", feat] if feat is not None else []), l)
            finally: sys.stdout = old
    return json.loads(out.getvalue())


@contract("C13.command", ["C13"], "variantlib.commands.plugins.get_configs:get_configs", {}, gen=gen_cmd, run=_run_cmd, mode="bounded", weight=.4,
          why_bounded="argparse and standard output are outside the verifier's subset")
def spec_cmd(refs, world, all_, ns, feat):
    q = query(requested(refs, world), {}, *_METHODS[0 if all_ else 1])
    return {n: [{"name": f, "values": vs, "multi_value": m} for f, vs, m in cs if feat in (f, None)] for n, cs in q.items() if ns in (n, None)}


# ------------------------------------------------------------------ C14
def gen_desc_for(g, answers):
    """a variant mostly made of known properties"""
    ps = []
    pool = [(n, f, v) for n, cs in answers for f, vs, _ in cs for v in vs if v != "BAD"]
    for _ in range(g.r.randint(0, 4)):
        k = g.r.random()
        if pool and k < .6: t = g.pick(pool)
        elif pool and k < .8:
            n, f, _ = g.pick(pool); t = (n, f, g.val())
        else: t = (g.ns(), g.feat(), g.val())
        p = VariantProperty(*t)
        if p not in ps: ps.append(p)
    return VariantDescription(ps)


def gen_validate(g):
    pr = gen_providers(g, 0)
    w = gen_world(g, pr)
    st = gen_static(g, pr)
    d = gen_desc_for(g, [(p.ns, p.all) for p in w.values()] + [(n, [(f, vs, False) for f, vs in fs.items()]) for n, fs in st.items()])
    return (d, pr, st, w)


def _run_validate(d, providers, static, world):
    from variantlib.api import validate_variant
    with plugins(world):
        r = validate_variant(d, info(providers, static))
    return (list(r.results.items()), r.multi_value_violations, r.is_valid(), r.is_valid(allow_unknown_plugins=False))


@contract("C14.validate", ["C14"], "variantlib.api:validate_variant", {}, gen=gen_validate, run=_run_validate, weight=2)
def spec_validate(d, providers, static, world):
    only = [p.namespace for p in d.properties]
    q = query(requested(selected(providers, True, only, True), world), static, *_METHODS[0])
    res = [(p, None if p.namespace not in q else any(f == p.feature and p.value in vs for f, vs, _ in q[p.namespace])) for p in d.properties]
    viol = frozenset(VariantFeature(n, f) for n, cs in q.items() for f, _, m in cs
                     if not m and len([p for p in d.properties if p.namespace == n and p.feature == f]) > 1)
    bad = len(viol) > 0 or any(v is False for _, v in res)
    return (res, viol, not bad, not bad and not any(v is None for _, v in res))


def document(providers, static, names, cfgs, enable, only, aot, non_empty):
    """{namespace: [(feature, values, multi-value)]}, from what the interpreter answers"""
    refs = selected(providers, enable, only, aot)
    if any(not plugin_api_ok(r) for r in refs): raise ValidationError("malformed reference")
    loaded = names if len(refs) > 0 else {}
    if len(set(loaded.values())) != len(loaded): raise RuntimeError("two plugins for one namespace")
    packaged = {n: [(f, vs, False) for f, vs in fs.items()] for n, fs in static.items() if len(fs) > 0 and n not in loaded.values()}
    if len(loaded) == 0: return packaged
    if non_empty and any(len(cs) == 0 for cs in cfgs.values()): raise PluginError("no configs")
    return {**packaged, **{loaded[r]: [(c["name"], c["values"], c["multi_value"]) for c in cs] for r, cs in cfgs.items() if len(cs) > 0}}


def queries(providers, names, method, enable, only, aot, fixed):
    """what the interpreter is asked: what plugins provide, and for the ones that are loaded the method"""
    refs = selected(providers, enable, only, aot)
    if len(refs) == 0: return []
    log = [("namespaces", [normalized(r) for r in refs], False)]
    return log + [(method, list(names), fixed)] if len(names) > 0 else log


def gen_validated(g):
    pr, st, names, cfgs = gen_configs(g)
    d = gen_desc_for(g, [(names[r], [(c["name"], c["values"], c["multi_value"]) for c in cs]) for r, cs in cfgs.items()] + [(n, [(f, vs, False) for f, vs in fs.items()]) for n, fs in st.items()])
    return (d, pr, st, names, cfgs)


def run_validated(d, providers, static, names, cfgs):
    from variantlib.api import validate_variant
    with answering({"namespaces": names, "get_all_configs": cfgs}) as asked:
        r = validate_variant(d, info(providers, static))
        return (r.results, {(f.namespace, f.feature) for f in r.multi_value_violations}, list(asked))


@contract("C14.results", ["C14"], "variantlib.api:validate_variant",
          {"d": VDESC, "providers": D(NSN, PINFO), "static": D(NSN, D(FEAT, L(VAL))), "names": D(TEXT, NSN), "cfgs": D(TEXT, L(CFGDOC))},
          gen=gen_validated, run=run_validated, pre=lambda d, providers, static, names, cfgs: documents_ok(providers, static, names, cfgs), callees=["C12.enabled", "C12.reference"])
def spec_results(d, providers, static, names, cfgs):
    only = list({p.namespace for p in d.properties})
    q = document(providers, static, names, cfgs, True, only, True, True)
    return ({p: None if p.namespace not in q else any(f == p.feature and p.value in vs for f, vs, _ in q[p.namespace]) for p in d.properties},
            {(n, f) for n, cs in q.items() for f, _, m in cs if not m and len([p for p in d.properties if p.namespace == n and p.feature == f]) > 1},
            queries(providers, names, "get_all_configs", True, only, True, False))


# ------------------------------------------------------------------ C15
def gen_make(g):
    pr = gen_providers(g, 0)
    for p in pr.values():
        if g.p(.4): p.install_time = False if p.requires or True else True
    w = gen_world(g, pr)
    for p in w.values():
        if g.p(.9): p.aot = True; p.kind = "ok"
        if g.p(.85): p.sup = [(f, vs, False) for f, vs, _ in p.sup]
    st = {}
    for n, p in pr.items():
        if not p.install_time and (not p.requires or g.p(.1)):
            st[n] = {f: g.uniq(g.val, g.r.randint(1, 3)) for f in g.uniq(g.feat, g.r.randint(1, 3))}
    fp = {n: [g.feat() for _ in range(g.r.randint(0, 3))] for n in pr if g.p(.4)}
    pp = {n: {g.feat(): [g.val() for _ in range(g.r.randint(0, 3))]} for n in pr if g.p(.3)}
    d = gen_desc_for(g, [(p.ns, p.sup) for p in w.values()] if g.p(.9) else [])
    lab = None if g.p(.6) else gen_label(g)
    return (d, None if g.p(.03) else info(pr, st, None, fp, pp), lab, g.p(.85), w)


def _run_make(d, vi, label, expand, world):
    from variantlib.api import make_variant_dist_info
    with plugins(world):
        return json.loads(make_variant_dist_info(d, vi, label, expand_aot_plugin_properties=expand))


def pre_make(d, vi, label, expand, world):
    """no static properties for a provider whose plugin is loaded but answers nothing (pyproject never gives any for it)"""
    if vi is None: return True
    return not any(p.ns in vi.static_properties and len(p.sup) == 0 for p in world.values())


@contract("C15.make", ["C15"], "variantlib.api:make_variant_dist_info", {}, gen=gen_make, run=_run_make, pre=pre_make, weight=2)
def spec_make(d, vi, label, expand, world):
    if vi is None: vi = VariantInfo()
    v = {k: x for k, x in view(vi).items()}
    v["variants"] = {spec_label(d, label): [key3(p) for p in d.properties]}
    static = {n: dict(fs) for n, fs in v["static_properties"].items()}
    fp = {n: list(fs) for n, fs in v["feature_priorities"].items()}
    if expand:
        build = [n for n in dict.fromkeys(p.namespace for p in d.properties)
                 if n in vi.providers and not vi.providers[n].install_time and len(vi.providers[n].requires) > 0]
        q = {}
        if len(build) > 0:
            q = query(requested(selected(vi.providers, True, build, True), world), vi.static_properties, *_METHODS[2])
        for n in build:
            if n in q:
                if any(m for _, _, m in q[n]): raise ValidationError("multi-value feature")
                static[n] = {f: vs for f, vs, _ in q[n]}
                if len(q[n]) > 1: fp[n] = merged_append(fp.get(n, []), [f for f, _, _ in q[n]])
        for p in d.properties:
            if p.namespace in build and p.value not in static.get(p.namespace, {}).get(p.feature, []): raise ValidationError("not supported")
    v["static_properties"], v["feature_priorities"] = static, fp
    return to_doc(v)


def gen_made(g):
    pr, st, names, cfgs = gen_configs(g)
    for p in pr.values():
        if g.p(.6) and p.requires: p.install_time = False
    cfgs = {r: [CfgDoc(name=c["name"], values=c["values"], multi_value=c["multi_value"] and g.p(.1)) for c in cs] for r, cs in cfgs.items()}
    d = gen_desc_for(g, [(names[r], [(c["name"], c["values"], c["multi_value"]) for c in cs]) for r, cs in cfgs.items()])
    fp = {n: [g.feat() for _ in range(g.r.randint(0, 3))] for n in pr if g.p(.4)}
    pp = {n: {g.feat(): [g.val() for _ in range(g.r.randint(0, 3))]} for n in pr if g.p(.3)}
    return (d, pr, st, fp, pp, None if g.p(.6) else gen_label(g), names, cfgs)


def run_made(d, providers, static, fp, pp, label, names, cfgs):
    from variantlib.api import make_variant_dist_info
    with answering({"namespaces": names, "get_supported_configs": cfgs}) as asked:
        with writing() as out:
            make_variant_dist_info(d, VariantInfo(list(providers), fp, pp, providers, static), label)
            v, = out
            return (v.static_properties, v.feature_priorities, v.property_priorities, v.namespace_priorities, v.variants, list(asked))


@contract("C15.made", ["C15"], "variantlib.api:make_variant_dist_info",
          {"d": VDESC, "providers": D(NSN, PINFO), "static": D(NSN, D(FEAT, L(VAL))), "fp": D(NSN, L(FEAT)), "pp": D(NSN, D(FEAT, L(VAL))), "label": O(TEXT), "names": D(TEXT, NSN), "cfgs": D(TEXT, L(CFGDOC))},
          gen=gen_made, run=run_made, pre=lambda d, providers, static, fp, pp, label, names, cfgs: documents_ok(providers, static, names, cfgs), callees=["C12.enabled", "C12.reference", "C16.label"])
def spec_made(d, providers, static, fp, pp, label, names, cfgs):
    name = spec_label(d, label)
    build = {p.namespace for p in d.properties if p.namespace in providers and not providers[p.namespace].install_time and len(providers[p.namespace].requires) > 0}
    q, asked = {}, []
    if len(build) > 0:
        only = list(build)
        q = document(providers, static, names, cfgs, True, only, True, False)
        asked = queries(providers, names, "get_supported_configs", True, only, True, True)
    if any(m for n, cs in q.items() if n in build for _, _, m in cs): raise ValidationError("multi-value feature")
    st = {**static, **{n: {f: vs for f, vs, _ in cs} for n, cs in q.items() if n in build}}
    if any(p.namespace in build and p.value not in st.get(p.namespace, {}).get(p.feature, []) for p in d.properties): raise ValidationError("not supported")
    prios = {**fp, **{n: merged_append(fp.get(n, []), [f for f, _, _ in cs]) for n, cs in q.items() if n in build and len(cs) > 1}}
    return (st, prios, pp, list(providers), {name: d}, asked)


def merged_append(xs, ys):
    """xs, then what it lacks of ys"""
    out = list(xs)
    for y in ys:
        if y not in out: out.append(y)
    return out


# ------------------------------------------------------------------ C23
def gen_check(g):
    pr = gen_providers(g, 0)
    w = gen_world(g, pr)
    st = gen_static(g, pr, .8)
    ds = [gen_desc_for(g, [(p.ns, p.sup) for p in w.values()] + [(n, [(f, vs, False) for f, vs in fs.items()]) for n, fs in st.items()])
          for _ in range(g.pick([0, 1, 1, 1, 2]))]
    return (gen_desc_for(g, [(p.ns, p.sup) for p in w.values()]) if g.p(.5) else None, pr, st, g.pick(["index", "wheel", "info"]), ds, gen_enable(g) if g.p(.6) else True, w)


def _run_check(d, providers, static, kind, ds, enable, world):
    from variantlib.api import check_variant_supported
    vi = info(providers, static)
    if kind != "info":
        vi = (VariantsJson if kind == "index" else VariantDistInfo)(vi)
        vi.variants = {"l%d" % i: x for i, x in enumerate(ds)}
    with plugins(world), user_config():
        return check_variant_supported(vdesc=d, variant_info=vi, enable_optional_plugins=enable)


@contract("C23.check", ["C23"], "variantlib.api:check_variant_supported", {}, gen=gen_check, run=_run_check, weight=2)
def spec_check(d, providers, static, kind, ds, enable, world):
    if d is None:
        if kind == "info": raise TypeError("no variant")
        if len(ds) != 1: raise ValueError("not a single variant")
        d = ds[0]
    sup = supported(query(requested(selected(providers, enable, None, False), world), static, *_METHODS[1]))
    return all(any(q.namespace == p.namespace and q.feature == p.feature and q in sup for q in d.properties) for p in d.properties)


def gen_supported(g):
    pr, st, names, cfgs = gen_configs(g)
    d = gen_desc_for(g, [(names[r], [(c["name"], c["values"], c["multi_value"]) for c in cs]) for r, cs in cfgs.items()] + [(n, [(f, vs, False) for f, vs in fs.items()]) for n, fs in st.items()])
    return (d, pr, st, names, cfgs, gen_enable(g))


def run_supported(d, providers, static, names, cfgs, enable):
    from variantlib.api import check_variant_supported
    with answering({"namespaces": names, "get_supported_configs": cfgs}) as asked:
        with user_config():
            return (check_variant_supported(vdesc=d, variant_info=info(providers, static), enable_optional_plugins=enable), list(asked))


@contract("C23.supported", ["C23"], "variantlib.api:check_variant_supported",
          {"d": VDESC, "providers": D(NSN, PINFO), "static": D(NSN, D(FEAT, L(VAL))), "names": D(TEXT, NSN), "cfgs": D(TEXT, L(CFGDOC)), "enable": ENABLE},
          gen=gen_supported, run=run_supported, pre=lambda d, providers, static, names, cfgs, enable: documents_ok(providers, static, names, cfgs), callees=["C12.enabled", "C12.reference", "C04.filter_variants"])
def spec_supported(d, providers, static, names, cfgs, enable):
    """the filter keeps the variant, given what the interpreter says is supported: every feature has such a value (C23.single)"""
    q = document(providers, static, names, cfgs, enable, None, False, False)
    return (len(spec_filter_variants([d], supported(q))) > 0, queries(providers, names, "get_supported_configs", enable, None, False, False))


def run_single(d, allowed):
    from variantlib.resolver.lib import filter_variants
    return len(list(filter_variants(vdescs=[d], allowed_properties=allowed))) > 0


@contract("C23.single", ["C23"], "variantlib.resolver.lib:filter_variants", {"d": VDESC, "allowed": L(VPROP)}, run=run_single, weight=.3)
def spec_single(d, allowed):
    """a single variant is kept when every feature of it has a supported value"""
    return all(any(p.namespace == r.namespace and p.feature == r.feature and r in allowed for r in d.properties) for p in d.properties)


def supported(q):
    return [VariantProperty(n, f, v) for n, cs in q.items() for f, vs, _ in cs for v in vs]


# ------------------------------------------------------------------ C07 (whole resolution)
def prio_for(g, sup):
    """(feature priorities, property priorities) about the supported features"""
    fp, pp = {}, {}
    for n, cs in sup:
        fs = [f for f, _, _ in cs]; g.r.shuffle(fs)
        if g.p(.7): fp[n] = fs[:g.r.randint(0, 3)] + ([g.feat()] if g.p(.2) else [])
        for f, vs, _ in cs:
            vs = list(vs); g.r.shuffle(vs)
            if g.p(.6): pp.setdefault(n, {})[f] = vs[:g.r.randint(0, 4)] + ([g.val()] if g.p(.2) else [])
    return fp, {n: {f: [v for v in vs if v != "BAD"] for f, vs in x.items()} for n, x in pp.items()}


def gen_resolution(g):
    pr = gen_providers(g, 0)
    w = gen_world(g, pr)
    for p in w.values(): p.kind = "ok"
    st = gen_static(g, pr, .8)
    dists = gen_dists(g) if g.p(.5) else []
    sup = [(p.ns, p.sup) for p in w.values()] + [(n, [(f, vs, False) for f, vs in fs.items()]) for n, fs in st.items()]
    for d in dists:
        if g.p(.6): sup.append(("abi_dependency", [(norm_name(d.name), g.uniq(lambda: g.pick(["1", "1.2", "1.2.3", "0", "10"]), 2), False)]))
    vs = {}
    for i in range(g.r.randint(0, 6)):
        d = gen_desc_for(g, sup)
        if g.p(.6) and sup:            # combine several features
            ps = list(d.properties)
            for n, cs in sup:
                for f, vals, _ in cs:
                    if g.p(.5):
                        p = VariantProperty(n, f, g.pick([x for x in vals if x != "BAD"] or ["v"]))
                        if p not in ps: ps.append(p)
            d = VariantDescription(ps)
        vs["null" if not d.properties else g.pick(["v%d" % i, d.hexdigest])] = d
    nsp = list(pr)
    for p in w.values():
        if p.ns not in nsp: nsp.append(p.ns)
    for n in st:
        if n not in nsp: nsp.append(n)
    g.r.shuffle(nsp)
    cfg = ([g.ns() for _ in range(g.r.randint(0, 3))] if g.p(.5) else [], FEAT_PRIO.gen(g) if g.p(.4) else {}, PROP_PRIO.gen(g) if g.p(.4) else {})
    if g.p(.6):
        good = {p.ns for p in w.values()} | set(st)
        cfg = ([g.pick(sorted(good) or ["a"]) for _ in range(g.r.randint(0, 3))] if g.p(.6) else [],) + (prio_for(g, sup) if g.p(.8) else ({}, {}))
        pkg = prio_for(g, sup) if g.p(.8) else ({}, {})
        return (vs, info(pr, st, nsp, *pkg), cfg, gen_enable(g) if g.p(.3) else True, w, dists, gen_env(g) if g.p(.2) else None)
    return (vs, info(pr, st, nsp, FEAT_PRIO.gen(g) if g.p(.5) else {}, PROP_PRIO.gen(g) if g.p(.5) else {}), cfg, gen_enable(g) if g.p(.5) else True, w, dists, gen_env(g) if g.p(.2) else None)


def _run_resolution(vs, vi, cfg, enable, world, dists, env):
    from variantlib.api import get_variants_by_priority
    vj = VariantsJson(vi)
    vj.variants = dict(vs)
    before = view(vj)
    with plugins(world), user_config(*cfg) as m, platform(dists, env):
        out = get_variants_by_priority(variants_json=vj, enable_optional_plugins=enable)
        same_cfg = (m.namespace_priorities, m.feature_priorities, m.property_priorities) == tuple(cfg)
    if any(l not in vs and l != "null" for l in out): return ("no such label", out)
    return ([vs[l] if l in vs else VariantDescription([]) for l in out], view(vj) == before, same_cfg)


def pre_resolution(vs, vi, cfg, enable, world, dists, env):
    """the ABI namespace belongs to the library"""
    return "abi_dependency" not in vi.providers and "abi_dependency" not in vi.static_properties and "abi_dependency" not in vi.namespace_priorities \
        and "abi_dependency" not in cfg[0] and not any(p.ns == "abi_dependency" for p in world.values())


@contract("C07.api", ["C07"], "variantlib.api:get_variants_by_priority", {}, gen=gen_resolution, run=_run_resolution, pre=pre_resolution, weight=3)
def spec_resolution(vs, vi, cfg, enable, world, dists, env):
    sup = supported(query(requested(selected(vi.providers, enable, None, False), world), vi.static_properties, *_METHODS[1]))
    order = spec_resolve(list(vs.values()), sup, spec_agg_ns(cfg[0], vi.namespace_priorities), spec_agg_feat(cfg[1], vi.feature_priorities),
                         spec_agg_prop(cfg[2], vi.property_priorities), None, None, None, dists, env)
    return (order, True, True)


# ------------------------------------------------------------------ C10 (conversions between the metadata forms)
def gen_fields(g):
    o = gen_info(g)
    return (o.namespace_priorities, o.feature_priorities, o.property_priorities, o.providers, o.static_properties, o.variants)


def parts(o): return (o.namespace_priorities, o.feature_priorities, o.property_priorities, o.providers, o.static_properties)


def run_copies(nsp, fp, pp, providers, static, variants):
    """each form made from another one; what was converted is as it was"""
    o = VariantInfo(nsp, fp, pp, providers, static)
    i = VariantsJson(o)
    i.variants = variants
    w = VariantDistInfo(i)
    t = VariantPyProjectToml(w)
    j = VariantsJson(t)
    return (parts(i), parts(w), w.variants, parts(t), parts(j), j.variants, parts(o), i.variants)


def constructible(nsp, fp, pp, providers, static, variants): return providers_constructible(providers)


FIELDS = {"nsp": L(NSN), "fp": FEAT_PRIO, "pp": PROP_PRIO, "providers": D(NSN, PINFO), "static": PROP_PRIO, "variants": D(TEXT, VDESC)}


@contract("C10.copies", ["C10", "C15"], "variantlib.models.variant_info:VariantInfo.copy_as_kwargs", FIELDS, gen=gen_fields, run=run_copies, pre=constructible)
def spec_copies(nsp, fp, pp, providers, static, variants):
    p = (nsp, fp, pp, providers, static)
    return (p, p, {}, p, p, {}, p, variants)


def run_written(nsp, fp, pp, providers, static, variants):
    i = VariantsJson(VariantInfo(nsp, fp, pp, providers, static))
    i.variants = variants
    with dumping() as out: i.to_str()
    return out[0]


@contract("C10.document", ["C10", "C15"], "variantlib.variants_json:VariantsJson.to_str", FIELDS, gen=gen_fields, run=run_written, pre=constructible)
def spec_document(nsp, fp, pp, providers, static, variants):
    return (to_doc({"namespace_priorities": nsp, "feature_priorities": fp, "property_priorities": pp, "static_properties": static,
                    "providers": {n: (p.plugin_api, p.enable_if, p.install_time, p.optional, p.requires) for n, p in providers.items()},
                    "variants": {l: [key3(p) for p in d.properties] for l, d in variants.items()}}), True)


def run_fresh(nsp, fp, pp, providers, static, variants):
    i = VariantsJson(VariantInfo(nsp, fp, pp, providers, static))
    return (i.namespace_priorities, i.feature_priorities, i.property_priorities, i.static_properties)


@contract("C10.fresh", ["C10"], "variantlib.models.variant_info:VariantInfo.copy_as_kwargs", FIELDS, gen=gen_fields, run=run_fresh, noshare=True, weight=.5, pre=constructible)
def spec_fresh(nsp, fp, pp, providers, static, variants): return (nsp, fp, pp, static)


def gen_just_providers(g): return (gen_info(g).providers,)


def providers_constructible(providers): return all(not p.install_time or len(p.requires) > 0 for p in providers.values())


def run_providers(providers):
    return VariantsJson(VariantInfo(providers=providers)).providers_dict()


@contract("C10.providers", ["C10", "C11"], "variantlib.variants_json:VariantsJson.providers_dict", {"providers": D(NSN, PINFO)},
          gen=gen_just_providers, run=run_providers, pre=providers_constructible, weight=.5)
def spec_providers(providers): return {n: provider_doc((p.plugin_api, p.enable_if, p.install_time, p.optional, p.requires)) for n, p in providers.items()}


def run_reread(providers):
    with dumping() as out: VariantsJson(VariantInfo(list(providers), {}, {}, providers, {})).to_str()
    return parts(VariantsJson(out[0][0]))


def rereadable(providers):
    return all(is_name(n) for n in providers) and all(p.install_time and len(p.requires) > 0 and all(no_line_or_tab(r) for r in p.requires) for p in providers.values()) \
        and all((p.enable_if is None or no_line_or_tab(p.enable_if)) and (p.plugin_api is None or plugin_api_ok(p.plugin_api)) for p in providers.values())


@contract("C10.reread", ["C10"], "variantlib.variants_json:VariantsJson", {"providers": D(NSN, PINFO)}, gen=gen_just_providers, run=run_reread, pre=rereadable)
def spec_reread(providers): return (list(providers), {}, {}, providers, {})


def gen_just_priorities(g):
    o = gen_info(g)
    return (o.feature_priorities, o.property_priorities)


def run_reread_priorities(fp, pp):
    with dumping() as out: VariantsJson(VariantInfo([], fp, pp, {}, {})).to_str()
    return parts(VariantsJson(out[0][0]))


def well_named(fp, pp):
    """valid names; no empty table for a namespace (it says nothing, and is not kept when read)"""
    return all(is_name(n) and all(is_name(f) for f in fs) for n, fs in fp.items()) \
        and all(is_name(n) and len(fs) > 0 and all(is_name(f) and all(is_value(v) for v in vs) for f, vs in fs.items()) for n, fs in pp.items())


@contract("C10.reread_priorities", ["C10"], "variantlib.variants_json:VariantsJson", {"fp": FEAT_PRIO, "pp": PROP_PRIO}, gen=gen_just_priorities, run=run_reread_priorities, pre=well_named)
def spec_reread_priorities(fp, pp): return ([], fp, pp, {}, {})


def gen_just_variants(g): return (gen_info(g).variants,)


def run_reread_variants(variants):
    i = VariantsJson(VariantInfo())
    i.variants = variants
    with dumping() as out: i.to_str()
    return VariantsJson(out[0][0]).variants


def labelled(variants):
    return all(over(l, LABEL_CHARS) and len(l) <= 16 for l in variants) and all((l == "null") == (len(d.properties) == 0) for l, d in variants.items())


@contract("C10.reread_variants", ["C10"], "variantlib.variants_json:VariantsJson", {"variants": D(TEXT, VDESC)}, gen=gen_just_variants, run=run_reread_variants, pre=labelled,
          mode="bounded", why_bounded="the regrouping of every description of a table at once is not decided (C03 proves it of one description)")
def spec_reread_variants(variants): return variants


def gen_aot(g):
    o = gen_info(g)
    return (o.feature_priorities, o.static_properties)


def run_reread_static(fp, static):
    aot = {n: ProviderInfo(install_time=False) for n in static}
    with dumping() as out: VariantsJson(VariantInfo(list(aot), fp, {}, aot, static)).to_str()
    return parts(VariantsJson(out[0][0]))


def static_ok(fp, static):
    return all(is_name(n) and all(is_name(f) for f in fs) for n, fs in fp.items()) \
        and all(is_name(n) and len(fs) > 0 and all(is_name(f) and all(is_value(v) for v in vs) for f, vs in fs.items()) for n, fs in static.items()) \
        and all(len(fs) == 1 or n in fp and all(f in fp[n] for f in fs) for n, fs in static.items())


@contract("C10.reread_static", ["C10"], "variantlib.variants_json:VariantsJson", {"fp": FEAT_PRIO, "static": PROP_PRIO}, gen=gen_aot, run=run_reread_static, pre=static_ok)
def spec_reread_static(fp, static):
    aot = {n: ProviderInfo(install_time=False) for n in static}
    return (list(aot), fp, {}, aot, static)
