"""C04 C05 C06 C07 C08 C21: merging priorities, filtering, ranking, resolving."""
import contextlib
import importlib.metadata
import os
import re
import sys
from unittest import mock

from packaging.version import InvalidVersion, Version

from pyvc.contract import *
from pyvc.contract import _vm
from pyvc.concrete import AnyError
from variantlib.errors import ValidationError
from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty

# ------------------------------------------------------------------ C08


def merged(lists):
    """items of all lists, in order of first occurrence"""
    out = []
    for xs in lists:
        if xs is not None:
            for x in xs:
                if x not in out:
                    out.append(x)
    return out


def view(xs):
    return merged([xs])


def view1(d):
    return {k: merged([xs]) for k, xs in d.items()}


def view2(d):
    return {k: {f: merged([xs]) for f, xs in fs.items()} for k, fs in d.items()}


def _run_ns(*lists):
    from variantlib.utils import aggregate_namespace_priorities
    return view(aggregate_namespace_priorities(*lists))


def _run_feat(*dicts):
    from variantlib.utils import aggregate_feature_priorities
    return view1(aggregate_feature_priorities(*dicts))


def _run_prop(*dicts):
    from variantlib.utils import aggregate_property_priorities
    return view2(aggregate_property_priorities(*dicts))


@contract("C08.namespace", "C08", "variantlib.utils:aggregate_namespace_priorities",
          {"lists": Star(O(L(NSN)))}, run=_run_ns)
def spec_agg_ns(*lists):
    return merged(lists)


@contract("C08.feature", "C08", "variantlib.utils:aggregate_feature_priorities",
          {"dicts": Star(O(FEAT_PRIO))}, run=_run_feat)
def spec_agg_feat(*dicts):
    keys = merged([list(d) for d in dicts if d is not None])
    return {k: merged([d[k] for d in dicts if d is not None and k in d]) for k in keys}


@contract("C08.property", "C08", "variantlib.utils:aggregate_property_priorities",
          {"dicts": Star(O(PROP_PRIO))}, run=_run_prop)
def spec_agg_prop(*dicts):
    # a namespace whose table lists no feature at all carries no priority
    keys = merged([[k for k, fs in d.items() if fs] for d in dicts if d is not None])
    return {k: {f: merged([d[k][f] for d in dicts if d is not None and k in d and f in d[k]])
                for f in merged([list(d[k]) for d in dicts if d is not None and k in d])}
            for k in keys}


@contract("C08.fresh", "C08", "variantlib.utils:aggregate_property_priorities",
          {"dicts": Star(O(PROP_PRIO))}, noshare=True, weight=.5)
def spec_agg_prop_raw(*dicts):
    out = {}
    for d in dicts:
        for k, fs in (d or {}).items():
            for f, xs in fs.items():
                cur = out.setdefault(k, {}).setdefault(f, [])
                if not cur: cur.extend(xs)
                else:
                    for x in xs:
                        if x not in cur: cur.append(x)
    return out


@contract("C08.fresh_feature", "C08", "variantlib.utils:aggregate_feature_priorities",
          {"dicts": Star(O(FEAT_PRIO))}, noshare=True, weight=.5)
def spec_agg_feat_raw(*dicts):
    out = {}
    for d in dicts:
        for k, xs in (d or {}).items():
            cur = out.setdefault(k, [])
            if not cur: cur.extend(xs)
            else:
                for x in xs:
                    if x not in cur: cur.append(x)
    return out


@contract("C08.fresh_namespace", "C08", "variantlib.utils:aggregate_namespace_priorities",
          {"lists": Star(O(L(NSN)))}, noshare=True, weight=.5)
def spec_agg_ns_raw(*lists):
    out = []
    for xs in lists:
        if xs is None: continue
        if not out: out.extend(xs)
        else:
            for x in xs:
                if x not in out: out.append(x)
    return out


# ------------------------------------------------------------------ C04
def distinct_hashes(vdescs):
    """the first variant of every hash, in order"""
    return [v for i, v in enumerate(vdescs) if all(w.hexdigest != v.hexdigest for w in vdescs[:i])]


@contract("C04.remove_duplicates", ["C04", "C07"], "variantlib.resolver.filtering:remove_duplicates",
          {"vdescs": L(VDESC)})
def spec_remove_duplicates(vdescs):
    return distinct_hashes(vdescs)


@contract("C04.by_namespaces", ["C04"], "variantlib.resolver.filtering:filter_variants_by_namespaces",
          {"vdescs": L(VDESC), "forbidden_namespaces": O(L(NSN), .1)})
def spec_by_namespaces(vdescs, forbidden_namespaces):
    if forbidden_namespaces is None:
        forbidden_namespaces = []
    return [v for v in vdescs if all(p.namespace not in forbidden_namespaces for p in v.properties)]


@contract("C04.by_features", ["C04"], "variantlib.resolver.filtering:filter_variants_by_features",
          {"vdescs": L(VDESC), "forbidden_features": O(L(Named("vfeat0", lambda g: _vm("VariantFeature")(g.ns(), g.feat()))), .1)})
def spec_by_features(vdescs, forbidden_features):
    if forbidden_features is None:
        forbidden_features = []
    return [v for v in vdescs
            if not any(p.namespace == f.namespace and p.feature == f.feature
                       for p in v.properties for f in forbidden_features)]


def compatible(v, allowed, forbidden):
    """every feature of v has a value that is allowed and not forbidden"""
    return all(any(q.namespace == p.namespace and q.feature == p.feature and q in allowed and q not in forbidden
                   for q in v.properties)
               for p in v.properties)


@contract("C04.by_property", ["C04", "C23"], "variantlib.resolver.filtering:filter_variants_by_property",
          {"vdescs": L(VDESC), "allowed_properties": L(VPROP), "forbidden_properties": O(L(VPROP))})
def spec_by_property(vdescs, allowed_properties, forbidden_properties=None):
    if forbidden_properties is None:
        forbidden_properties = []
    return [v for v in vdescs if compatible(v, allowed_properties, forbidden_properties)]


VF0 = Named("vfeat0", lambda g: _vm("VariantFeature")(g.ns(), g.feat()))


@contract("C04.filter_variants", ["C04", "C07", "C23"], "variantlib.resolver.lib:filter_variants",
          {"vdescs": L(VDESC), "allowed_properties": L(VPROP), "forbidden_namespaces": O(L(NSN), .4),
           "forbidden_features": O(L(VF0), .4), "forbidden_properties": O(L(VPROP), .4)}, opts={"result": ("Seq", ("Rec", "VD"))}, weight=2)
def spec_filter_variants(vdescs, allowed_properties, forbidden_namespaces=None, forbidden_features=None,
                         forbidden_properties=None):
    fns = [] if forbidden_namespaces is None else forbidden_namespaces
    ffe = [] if forbidden_features is None else forbidden_features
    fpr = [] if forbidden_properties is None else forbidden_properties
    return [v for v in distinct_hashes(vdescs)
            if all(p.namespace not in fns for p in v.properties)
            and not any(p.namespace == f.namespace and p.feature == f.feature for p in v.properties for f in ffe)
            and compatible(v, allowed_properties, fpr)]


# ------------------------------------------------------------------ C05
def position(xs, x):
    """index of x in xs; after everything listed when absent"""
    return xs.index(x) if x in xs else sys.maxsize


@contract("C05.namespace_priority", ["C05"], "variantlib.resolver.sorting:get_namespace_priorities",
          {"vprop": VPROP, "namespace_priorities": NS_PRIO})
def spec_ns_prio(vprop, namespace_priorities):
    return position(namespace_priorities, vprop.namespace)


@contract("C05.feature_priority", ["C05"], "variantlib.resolver.sorting:get_feature_priorities",
          {"vprop": VPROP, "feature_priorities": O(FEAT_PRIO)})
def spec_feat_prio(vprop, feature_priorities):
    if feature_priorities is None or vprop.namespace not in feature_priorities:
        return sys.maxsize
    return position(feature_priorities[vprop.namespace], vprop.feature)


@contract("C05.property_priority", ["C05"], "variantlib.resolver.sorting:get_property_priorities",
          {"vprop": VPROP, "property_priorities": O(PROP_PRIO)})
def spec_prop_prio(vprop, property_priorities):
    if property_priorities is None or vprop.namespace not in property_priorities:
        return sys.maxsize
    if vprop.feature not in property_priorities[vprop.namespace]:
        return sys.maxsize
    return position(property_priorities[vprop.namespace][vprop.feature], vprop.value)


def gen_grouped(g, uniq=True):
    """supported properties, feature by feature"""
    groups = []
    for _ in range(g.r.randint(0, g.maxlen)):
        k = (g.ns(), g.feat())
        if k not in groups: groups.append(k)
    if g.p(.8): groups.sort(key=lambda k: g.NS.index(k[0]))      # as providers report them
    out = []
    for ns, fe in groups:
        for v in g.uniq(g.val, g.r.randint(1, 4)):
            out.append(VariantProperty(ns, fe, v))
    return out


def together(keys):
    """equal items stand next to each other"""
    return all(keys[i] == keys[i - 1] or keys[i] not in keys[:i] for i in range(1, len(keys)))


def feature_by_feature(vprops, namespace_priorities, feature_priorities=None, property_priorities=None):
    """properties of one feature are listed next to each other"""
    return together([(p.namespace, p.feature) for p in vprops])


def gen_sort_args(g):
    vprops = gen_grouped(g)
    nsp = NS_PRIO.gen(g)
    if g.p(.9):
        for p in vprops:
            if p.namespace not in nsp: nsp.append(p.namespace)
        if g.p(.5): g.r.shuffle(nsp)
    return (vprops, nsp, O(FEAT_PRIO).gen(g), O(PROP_PRIO).gen(g))


@contract("C05.sort_variant_properties", ["C05", "C07"], "variantlib.resolver.sorting:sort_variant_properties",
          {"vprops": L(VPROP), "namespace_priorities": NS_PRIO, "feature_priorities": O(FEAT_PRIO), "property_priorities": O(PROP_PRIO)},
          gen=gen_sort_args, pre=feature_by_feature, opts={"result": ("Seq", ("Rec", "VP")), "raises": ValidationError}, weight=2)
def spec_sort_properties(vprops, namespace_priorities, feature_priorities=None, property_priorities=None):
    if any(p.namespace not in namespace_priorities for p in vprops):
        raise ValidationError("namespace without priority")
    feats = [(p.namespace, p.feature) for p in vprops]
    return sorted(vprops, key=lambda p: (spec_ns_prio(p, namespace_priorities),
                                         spec_feat_prio(p, feature_priorities),
                                         feats.index((p.namespace, p.feature)),
                                         spec_prop_prio(p, property_priorities)))


# ------------------------------------------------------------------ C06
def feature_order(vprops):
    return merged([[(p.namespace, p.feature) for p in vprops]])


def values_of(vprops, key):
    return [p.value for p in vprops if (p.namespace, p.feature) == key]


def rank(v, supported):
    """per feature: position of the best supported value, or 'worse than any' when the feature is not used"""
    return tuple([min([sys.maxsize] + [values_of(supported, key).index(p.value) for p in v.properties
                                       if (p.namespace, p.feature) == key and p.value in values_of(supported, key)])
                  for key in feature_order(supported)])


def has_unsupported_feature(v, supported):
    return any(not any(q.namespace == p.namespace and q.feature == p.feature and q in supported for q in v.properties)
               for p in v.properties)


def gen_rank_args(g):
    sup = gen_grouped(g)
    if g.p(.2): g.r.shuffle(sup)
    if sup and g.p(.1): sup.append(g.pick(sup))
    vs = L(VDESC).gen(g)
    if sup and g.p(.85):       # mostly compatible variants
        feats = feature_order(sup)
        vs = []
        for _ in range(g.len()):
            ps = []
            for k in feats:
                if g.p(.5):
                    vals = values_of(sup, k)
                    chosen = {g.pick(vals)} | {g.val() for _ in range(g.r.randint(0, 2))}
                    ps += [VariantProperty(k[0], k[1], x) for x in sorted(chosen)]
            vs.append(VariantDescription(ps))
        if g.p(.1): vs += [gen_vdesc(g)]
        if g.p(.3): vs.insert(g.r.randint(0, len(vs)), VariantDescription([]))
    return (vs, sup)


@contract("C06.sort_variants", ["C06", "C07"], "variantlib.resolver.sorting:sort_variants_descriptions",
          {"vdescs": L(VDESC), "property_priorities": L(VPROP)}, gen=gen_rank_args,
          opts={"result": ("Seq", ("Rec", "VD")), "raises": ValidationError}, weight=2)
def spec_sort_variants(vdescs, property_priorities):
    if any(has_unsupported_feature(v, property_priorities) for v in vdescs):
        raise ValidationError("not filtered")
    return sorted(vdescs, key=lambda v: rank(v, property_priorities))


# ------------------------------------------------------------------ C21
class FakeDist:
    def __init__(self, name, version): self.name, self.version = name, version
    def __repr__(self): return "FakeDist(%r, %r)" % (self.name, self.version)
    def __eq__(self, o): return isinstance(o, FakeDist) and (self.name, self.version) == (o.name, o.version)
    __hash__ = None
    @property
    def metadata(self): return {"Name": self.name, "Version": self.version}


_VERSIONS = ["1.2.3", "1", "0.10", "2.0.0rc1", "1!3.4.5.6", "10.11.12.post1", "1.2.3+local.7", "2024.1", "v1.2", "1.0.dev3", "1.02.3"]
_NAMES = ["a", "b", "Foo.Bar", "foo-bar", "foo_bar", "A--b._c", "zeta", "aa", "B", "x9"]


def gen_name(g):
    """package names: a few common ones, and ones of any shape"""
    if g.p(.75): return g.pick(_NAMES)
    n = "".join(g.pick("ab9AB-_.") for _ in range(g.r.randint(1, 5)))
    return n if n.strip("-_.") else "_a" + n


def gen_dists(g):
    return [FakeDist(gen_name(g), g.pick(_VERSIONS)) for _ in range(g.r.randint(0, 4))]


def gen_env(g):
    k = g.r.random()
    if k < .3: return None
    if k < .35: return ""
    items = []
    for _ in range(g.r.randint(1, 4)):
        j = g.r.random()
        if j < .7: items.append(gen_name(g) + "==" + g.pick(_VERSIONS))
        else: items.append(g.pick(["", "a", "a=1", "foo>=1", "=", "a=", " ", "foo<2", "~=3"]))
    return ",".join(items)


def norm_name(name):
    return re.sub(r"[-_.]+", "-", name).lower().replace("-", "_")


def version_of(v):
    """major, minor, micro"""
    return (tuple(Version(v).release) + (0, 0, 0))[:3]


def is_version(v):
    try: Version(v)
    except InvalidVersion: return False
    return True


def spec_inject(supported, prios, dists, env):
    pk = {norm_name(d.name): d.version for d in dists}
    for item in (env or "").split(","):
        if "==" in item:
            n, v = item.split("==", 1)
            pk[norm_name(n)] = v
    if any(re.fullmatch("[a-z0-9_]+", n) is None or not is_version(v) for n, v in pk.items()): raise AnyError()
    for n, v in sorted(pk.items()):
        ma, mi, pa = version_of(v)
        supported.append(VariantProperty("abi_dependency", n, f"{ma}"))
        supported.append(VariantProperty("abi_dependency", n, f"{ma}.{mi}"))
        supported.append(VariantProperty("abi_dependency", n, f"{ma}.{mi}.{pa}"))
    prios.append("abi_dependency")


@contextlib.contextmanager
def platform(dists, env):
    old = os.environ.pop("VARIANT_ABI_DEPENDENCY", None)
    if env is not None: os.environ["VARIANT_ABI_DEPENDENCY"] = env
    try:
        with mock.patch("importlib.metadata.distributions", lambda *a, **k: iter(dists)):
            yield
    finally:
        os.environ.pop("VARIANT_ABI_DEPENDENCY", None)
        if old is not None: os.environ["VARIANT_ABI_DEPENDENCY"] = old


def _run_inject(supported, prios, dists, env):
    from variantlib.resolver.lib import inject_abi_dependency
    with platform(dists, env):
        return inject_abi_dependency(supported, prios)


@contract("C21.inject", ["C21", "C07"], "variantlib.resolver.lib:inject_abi_dependency",
          {"supported_vprops": L(VPROP), "namespace_priorities": NS_PRIO,
           "dists": Named("dists", gen_dists), "env": Named("env", gen_env)}, run=_run_inject)
def spec_inject_contract(supported_vprops, namespace_priorities, dists, env):
    spec_inject(supported_vprops, namespace_priorities, dists, env)


# ------------------------------------------------------------------ C07 (resolver level)
def spec_resolve(vdescs, supported, nsp, fp, pp, fns, ffe, fpr, dists, env):
    sup = list(supported)
    prios = list(nsp)
    spec_inject(sup, prios, dists, env)
    null = VariantDescription([])
    if null not in vdescs: vdescs = vdescs + [null]
    kept = spec_filter_variants(vdescs, sup, fns, ffe, fpr)
    return spec_sort_variants(kept, spec_sort_properties(sup, prios, fp, pp))


def gen_resolve(g):
    vdescs, sup = gen_rank_args(g)
    if not feature_by_feature(sup, []): sup = gen_grouped(g)
    dists = gen_dists(g)
    if g.p(.6):
        for d in dists:
            if g.p(.5):
                vdescs.append(VariantDescription([VariantProperty("abi_dependency", norm_name(d.name), g.pick(["1", "1.2", "1.2.3", "0", "10"]))]))
    nsp = NS_PRIO.gen(g)
    for p in sup:
        if p.namespace not in nsp: nsp.append(p.namespace)
    if g.p(.5): g.r.shuffle(nsp)
    nsp = [n for n in nsp if n != "abi_dependency"]
    sup = [p for p in sup if p.namespace != "abi_dependency"]
    return (vdescs, sup, nsp, O(FEAT_PRIO).gen(g), O(PROP_PRIO).gen(g), O(L(NSN), .7).gen(g), O(L(VF0), .7).gen(g),
            O(L(VPROP), .7).gen(g), dists, gen_env(g) if g.p(.3) else None)


def _run_resolve(vdescs, supported, nsp, fp, pp, fns, ffe, fpr, dists, env):
    from variantlib.resolver.lib import sort_and_filter_supported_variants
    with platform(dists, env):
        # the caller's variant list may be completed with the null variant: pass a private copy
        return sort_and_filter_supported_variants(list(vdescs), supported, nsp, fp, pp, fns, ffe, fpr)


def resolvable(vdescs, supported, nsp, fp, pp, fns, ffe, fpr, dists, env):
    """the supported properties, those of the installed packages included, are listed feature by feature"""
    sup, prios = list(supported), list(nsp)
    spec_inject(sup, prios, dists, env)
    return feature_by_feature(sup, prios, fp, pp)


@contract("C07.resolve", ["C07"], "variantlib.resolver.lib:sort_and_filter_supported_variants",
          {"vdescs": L(VDESC), "supported_vprops": L(VPROP), "namespace_priorities": NS_PRIO,
           "feature_priorities": O(FEAT_PRIO), "property_priorities": O(PROP_PRIO), "forbidden_namespaces": O(L(NSN)),
           "forbidden_features": O(L(VF0)), "forbidden_properties": O(L(VPROP)),
           "dists": Named("dists", gen_dists), "env": Named("env", gen_env)}, gen=gen_resolve, run=_run_resolve, pre=resolvable,
          callees=["C04.filter_variants", "C05.sort_variant_properties", "C06.sort_variants"], weight=2)
def spec_resolve_contract(vdescs, supported_vprops, namespace_priorities, feature_priorities, property_priorities,
                          forbidden_namespaces, forbidden_features, forbidden_properties, dists, env):
    return spec_resolve(vdescs, supported_vprops, namespace_priorities, feature_priorities, property_priorities,
                        forbidden_namespaces, forbidden_features, forbidden_properties, dists, env)
