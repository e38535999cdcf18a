"""C09 C10 C11: reading, writing, converting and merging variant metadata."""
import copy
import json
import re

from pyvc.contract import *
from pyvc.concrete import AnyError, mutables
from variantlib.errors import ValidationError
from variantlib.models.variant import VariantDescription, VariantProperty
from variantlib.models.variant_info import ProviderInfo, VariantInfo
from variantlib.pyproject_toml import VariantPyProjectToml
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

from contracts.c_models import LABEL_CHARS, is_name, is_value, key3, over, _near

WS_NOT_SPACE = re.compile(r"[\S ]+")


# ------------------------------------------------------------------ the documented shape
def no_line_or_tab(s):
    """the grammar of requirements and markers: one or more characters that are spaces or not white space"""
    return s != "" and all(c == " " or not c.isspace() for c in s)


def word_char(c): return c.isalnum() or c == "_" or c == "."


def plugin_api_ok(s):
    """module[:attribute], white space allowed around the colon only"""
    if ":" not in s:
        return s != "" and all(word_char(c) for c in s)
    m, a = s.split(":", 1)
    m, a = m.rstrip(), a.lstrip()
    return m != "" and a != "" and all(word_char(c) for c in m) and all(word_char(c) for c in a)


def str_list(v): return isinstance(v, list) and all(isinstance(x, str) for x in v)
def str_dict(v): return isinstance(v, dict) and all(isinstance(k, str) for k in v)
def nested(v): return str_dict(v) and all(str_dict(x) and all(str_list(y) for y in x.values()) for x in v.values())


def provider_ok(p):
    return (str_dict(p) and all(k in ("requires", "optional", "plugin-api", "enable-if", "install-time") for k in p)
            and str_list(p.get("requires", [])) and all(no_line_or_tab(r) for r in p.get("requires", []))
            and type(p.get("optional", False)) is bool and type(p.get("install-time", True)) is bool
            and (p.get("plugin-api") is None or isinstance(p["plugin-api"], str) and plugin_api_ok(p["plugin-api"]))
            and (p.get("enable-if") is None or isinstance(p["enable-if"], str) and no_line_or_tab(p["enable-if"]))
            and (len(p.get("requires", [])) > 0 or not p.get("install-time", True)))


def common_ok(doc, needs_static):
    """the sections shared by all forms are valid; needs_static(provider table) tells ahead-of-time providers apart"""
    if not str_dict(doc): return False
    prio = doc.get("default-priorities", {})
    if not (str_dict(prio) and all(k in ("namespace", "feature", "property") for k in prio)): return False
    nsp, fp, pp = prio.get("namespace", []), prio.get("feature", {}), prio.get("property", {})
    if not (str_list(nsp) and all(is_name(n) for n in nsp)): return False
    if not (str_dict(fp) and all(is_name(n) and str_list(fs) and all(is_name(f) for f in fs) for n, fs in fp.items())): return False
    if not (nested(pp) and all(is_name(n) and all(is_name(f) and all(is_value(v) for v in vs) for f, vs in fs.items()) for n, fs in pp.items())): return False
    prov = doc.get("providers", {})
    if not (str_dict(prov) and all(is_name(n) and provider_ok(p) for n, p in prov.items())): return False
    st = doc.get("static-properties", {})
    if not (nested(st) and all(is_name(n) and all(is_name(f) and all(is_value(v) for v in vs) for f, vs in fs.items()) for n, fs in st.items())): return False
    if any(len(fs) > 1 and any(f not in fp.get(n, []) for f in fs) for n, fs in st.items()): return False
    if set(nsp) != set(prov): return False
    return {n for n, fs in st.items() if len(fs) > 0} == {n for n, p in prov.items() if needs_static(p)}


def common_view(doc):
    prio = doc.get("default-priorities", {})
    return {
        "namespace_priorities": list(prio.get("namespace", [])),
        "feature_priorities": {n: list(fs) for n, fs in prio.get("feature", {}).items()},
        "property_priorities": {n: {f: list(vs) for f, vs in fs.items()} for n, fs in prio.get("property", {}).items() if len(fs) > 0},
        "providers": {n: (p.get("plugin-api"), p.get("enable-if"), p.get("install-time", True), p.get("optional", False), list(p.get("requires", [])))
                      for n, p in doc.get("providers", {}).items()},
        "static_properties": {n: {f: list(vs) for f, vs in fs.items()} for n, fs in doc.get("static-properties", {}).items() if len(fs) > 0},
    }


def props_of(vdict): return [(n, f, v) for n, fs in vdict.items() for f, vs in fs.items() for v in vs]


def variant_ok(label, vdict):
    ps = props_of(vdict)
    return (1 <= len(label) <= 16 and over(label, LABEL_CHARS) and (len(ps) == 0) == (label == "null")
            and all(is_name(n) and is_name(f) and is_value(v) for n, f, v in ps)
            and not any(ps[i] in ps[:i] for i in range(len(ps))))


def variants_ok(doc):
    vs = doc.get("variants")
    return str_dict(vs) and all(nested(v) for v in vs.values()) and all(variant_ok(l, v) for l, v in vs.items())


def variants_view(doc):
    return {l: sorted(props_of(v)) for l, v in doc["variants"].items()}


# ------------------------------------------------------------------ observation of the real objects
def view(o):
    out = {
        "namespace_priorities": o.namespace_priorities, "feature_priorities": o.feature_priorities,
        "property_priorities": o.property_priorities,
        "providers": {n: (p.plugin_api, p.enable_if, p.install_time, p.optional, p.requires) for n, p in o.providers.items()},
        "static_properties": o.static_properties,
    }
    if isinstance(o, VariantsJson):
        out["variants"] = {l: [key3(p) for p in d.properties] for l, d in o.variants.items()}
    return out


# ------------------------------------------------------------------ generators
_REQS = ["pkg", "pkg-a >= 1.2", "foo-bar[x]==1", "My.Pkg; python_version > '3'", "a_b", "x @ https://e.org/x.whl", "B"]
_APIS = ["mod", "mod:Cls", "pkg.mod:Cls.inner", "mod : Cls", "a.b", "m\t:\nC", "mód:x", "_", "m:.", "9"]
_BADAPI = ["", ":", "mod:", ":x", "a:b:c", "a b", " a", "a ", "a:b ", "a-b", "a\n", "a :: b", "a.b:c-d"]
_ENIF = ["python_version >= '3'", "sys_platform == 'linux'", "platform_machine == 'x86_64' or os_name == 'nt'", "x"]


def gen_doc(g, kind=None):
    """a document that is usually valid; kind: index, wheel or pyproject"""
    kind = kind or g.pick(["index", "wheel", "pyproject"])
    nss = g.uniq(g.ns, g.r.randint(0, 3))
    prov, st, fp, pp = {}, {}, {}, {}
    for n in nss:
        p = {}
        it = g.p(.6)
        if it or g.p(.6): p["requires"] = [g.pick(_REQS) for _ in range(g.r.randint(1 if it else 0, 3))]
        if not it: p["install-time"] = False
        elif g.p(.2): p["install-time"] = True
        if g.p(.3): p["optional"] = g.p(.7)
        if g.p(.5): p["plugin-api"] = g.pick(_APIS) if g.p(.95) else None
        if g.p(.3): p["enable-if"] = g.pick(_ENIF) if g.p(.95) else None
        items = list(p.items()); g.r.shuffle(items)
        prov[n] = dict(items)
        if not it and (kind != "pyproject" or not p.get("requires")):
            feats = g.uniq(g.feat, g.r.randint(1, 3))
            st[n] = {f: g.uniq(g.val, g.r.randint(0, 3)) for f in feats}
            if len(feats) > 1 or g.p(.3):
                extra = [g.feat() for _ in range(g.r.randint(0, 1))]
                fs = feats + extra; g.r.shuffle(fs); fp[n] = fs
    for n in nss + ([g.ns()] if g.p(.1) else []):
        if n not in fp and g.p(.3): fp[n] = [g.feat() for _ in range(g.r.randint(0, 3))]
        if g.p(.3): pp[n] = {g.feat(): [g.val() for _ in range(g.r.randint(0, 3))] for _ in range(g.r.randint(0, 2))}
    prio_n = list(nss); g.r.shuffle(prio_n)
    if prio_n and g.p(.05): prio_n.append(g.pick(prio_n))
    doc = {}
    prio = {}
    if prio_n or g.p(.7): prio["namespace"] = prio_n
    if fp or g.p(.2): prio["feature"] = fp
    if pp or g.p(.2): prio["property"] = pp
    if prio or g.p(.5): doc["default-priorities"] = prio
    if prov or g.p(.5): doc["providers"] = prov
    if st or g.p(.2): doc["static-properties"] = st
    if kind != "pyproject":
        vs = {}
        for _ in range(g.r.randint(0, 3) if kind == "index" else 1):
            l, d = gen_variant_entry(g); vs[l] = d
        doc["variants"] = vs
    if g.p(.15): doc["$schema"] = "x"
    if g.p(.05): doc[g.text()] = g.json(1)
    items = list(doc.items()); g.r.shuffle(items)
    return dict(items)


def gen_variant_entry(g):
    if g.p(.2): return "null", ({} if g.p(.7) else {g.ns(): {} if g.p(.5) else {g.feat(): []}})
    d = {}
    for _ in range(g.r.randint(1, 3)):
        fs = d.setdefault(g.ns(), {}).setdefault(g.feat(), [])
        v = g.val()
        if v not in fs: fs.append(v)
    return "".join(g.pick(LABEL_CHARS) for _ in range(g.pick([1, 3, 8, 16]))), d


def mutate(g, doc):
    """one change somewhere in the document"""
    doc = copy.deepcopy(doc)
    sites = []
    def walk(o, path):
        sites.append(path)
        if isinstance(o, dict):
            for k in o: walk(o[k], path + [k])
        elif isinstance(o, list):
            for i in range(len(o)): walk(o[i], path + [i])
    walk(doc, [])
    path = g.pick(sites)
    def junk(old):
        k = g.r.random()
        if isinstance(old, str) and k < .75:
            j = g.r.random()
            if j < .2: return g.text()
            if j < .4: return old + g.pick(["\n", " ", "A", "é", "-", ".", "", "٣", "\t", "a" * 17])
            if j < .5: return ""
            if j < .65: return g.pick(_BADAPI)
            if j < .75: return g.pick(_REQS + _APIS + _ENIF + ["null"])
            return g.pick([g.ns, g.feat, g.val])()
        if isinstance(old, bool) and k < .6: return g.pick([not old, 0, 1, None, "true"])
        if isinstance(old, list) and k < .3: return old + [g.json(1)]
        if isinstance(old, list) and k < .5: return tuple(old) if g.p(.05) else "".join(map(str, old[:1])) if g.p(.3) else []
        if isinstance(old, dict) and k < .4:
            return {**old, g.pick([g.text(), g.ns(), "namespace", "feature", "property", "requires", "plugin-api", "enable-if", "install-time", "optional", "null"]): g.json(1) if g.p(.5) else copy.deepcopy(g.pick(list(old.values())) if old else {})}
        if isinstance(old, dict) and k < .5: return {}
        return g.json(2)
    if not path:
        return junk(doc)
    o = doc
    for k in path[:-1]: o = o[k]
    k = path[-1]
    op = g.r.random()
    if op < .2:
        del o[k]
    elif op < .4 and isinstance(o, dict):
        v = o.pop(k); nk = junk(k) if g.p(.7) else g.text()
        o[nk if isinstance(nk, str) else json.dumps(nk)] = v if g.p(.9) else junk(v)
    elif op < .5 and isinstance(o, list):
        o.insert(g.r.randint(0, len(o)), copy.deepcopy(g.pick(o)))
    else:
        o[k] = junk(o[k])
    return doc


def gen_maybe_doc(kind):
    def f(g):
        if g.p(.02): return g.json(2)
        doc = gen_doc(g, kind if g.p(.9) else None)
        for _ in range(g.pick([0, 1, 1, 1, 2])): doc = mutate(g, doc)
        return doc
    return f


def near_docs(wrap):
    """single-character variations of every kind of string in a document"""
    def base(): return {"default-priorities": {"namespace": ["n"], "feature": {"n": ["f"]}, "property": {"n": {"f": ["v"]}}},
                        "providers": {"n": {"requires": ["r"], "plugin-api": "m:a", "enable-if": "e"}}, "static-properties": {}, "variants": {"lab": {"n": {"f": ["v"]}}}}
    def rename(d, path, s):
        d = copy.deepcopy(d); o = d
        for k in path[:-1]: o = o[k]
        if path[-1] == 0: o[0] = s
        elif isinstance(o.get(path[-1]), str): o[path[-1]] = s
        else: o[s] = o.pop(path[-1])
        return d
    for s in _near():
        for path in (["providers", "n", "requires", 0], ["providers", "n", "plugin-api"], ["providers", "n", "enable-if"],
                     ["default-priorities", "feature", "n", 0], ["default-priorities", "feature", "n"], ["default-priorities", "property", "n"],
                     ["default-priorities", "property", "n", "f"], ["default-priorities", "property", "n", "f", 0], ["variants", "lab"],
                     ["variants", "lab", "n"], ["variants", "lab", "n", "f"], ["variants", "lab", "n", "f", 0]):
            yield wrap(rename(base(), path, s))
        for a in ("m" + s + ":a", "m:" + s + "a", "m:a" + s, "m" + s + "a"):
            yield wrap(rename(base(), ["providers", "n", "plugin-api"], a))
        d = base(); d["default-priorities"]["namespace"] = [s]; d["providers"] = {s: d["providers"]["n"]}
        yield wrap(d)
        for path in (["static-properties", "n"], ["static-properties", "n", "f"], ["static-properties", "n", "f", 0]):
            d = base(); d["static-properties"] = {"n": {"f": ["v"]}}; d["providers"]["n"]["install-time"] = False
            yield wrap(rename(d, path, s))
    for n in range(0, 40): yield wrap({"variants": {"a" * n: {"n": {"f": ["v"]}}}})


# ------------------------------------------------------------------ C09
def _read_index(doc): return view(VariantsJson(doc))
def _read_pyproject(doc): return view(VariantPyProjectToml(doc))
def _read_wheel(text, label): return view(VariantDistInfo(text, label)) if label is not None else view(VariantDistInfo(text))


def aot_always(p): return not p.get("install-time", True)
def aot_no_plugin(p): return not p.get("install-time", True) and len(p.get("requires", [])) == 0


@contract("C09.variants_json", ["C09"], "variantlib.variants_json:VariantsJson", {"doc": Named("document", gen_maybe_doc("index"))},
          run=_read_index, weight=2, cases=lambda: near_docs(lambda d: (d,)))
def spec_read_index(doc):
    if not (common_ok(doc, aot_always) and variants_ok(doc)): raise ValidationError("invalid")
    return {**common_view(doc), "variants": variants_view(doc)}


def gen_pyproject(g):
    k = g.r.random()
    if k < .03: return {}
    d = {"variant": gen_maybe_doc("pyproject")(g)}
    if g.p(.3): d["project"] = {"name": "x"}
    return d


@contract("C09.pyproject", ["C09"], "variantlib.pyproject_toml:VariantPyProjectToml", {"doc": Named("toml", gen_pyproject)}, run=_read_pyproject, weight=1.5)
def spec_read_pyproject(doc):
    t = doc.get("variant", {})
    if not common_ok(t, aot_no_plugin): raise ValidationError("invalid")
    return common_view(t)


def gen_wheel_doc(g):
    doc = gen_maybe_doc("wheel")(g)
    t = json.dumps(doc)
    if g.p(.5): t = t.encode()
    lab = None
    if g.p(.5):
        try: lab = g.pick(list(doc["variants"]))
        except Exception: lab = "null"
        if g.p(.2): lab = g.text()
    return (t, lab)


@contract("C09.variant_json", ["C09"], "variantlib.variant_dist_info:VariantDistInfo", {"text": TEXT, "label": O(TEXT)}, gen=gen_wheel_doc, run=_read_wheel, weight=1.5)
def spec_read_wheel(text, label):
    doc = json.loads(text)
    if not (common_ok(doc, aot_always) and variants_ok(doc)): raise ValidationError("invalid")
    if len(doc["variants"]) != 1 or (label is not None and label not in doc["variants"]): raise ValidationError("not this wheel")
    return {**common_view(doc), "variants": variants_view(doc)}


# ------------------------------------------------------------------ C10
def gen_info(g, cls=None):
    """a valid metadata object, built directly (not by the parser)"""
    for _ in range(30):
        doc = gen_doc(g, "index")
        if common_ok(doc, aot_always) and variants_ok(doc): break
    else: doc = {"variants": {}}
    cls = cls or VariantsJson
    o = object.__new__(cls)
    v = common_view(doc)
    for k, x in v.items():
        if k != "providers": setattr(o, k, x)
    o.providers = {n: ProviderInfo(plugin_api=p[0], enable_if=p[1], install_time=p[2], optional=p[3], requires=p[4]) for n, p in v["providers"].items()}
    if issubclass(cls, VariantsJson):
        o.variants = {l: VariantDescription([VariantProperty(*t) for t in ps]) for l, ps in variants_view(doc).items()}
    return o


def to_doc(v):
    """the document describing a metadata view"""
    prio = {"namespace": v["namespace_priorities"]}
    if v["feature_priorities"]: prio["feature"] = v["feature_priorities"]
    if v["property_priorities"]: prio["property"] = v["property_priorities"]
    doc = {"$schema": "https://variants-schema.wheelnext.dev/v0.0.3.json", "default-priorities": prio,
           "providers": {n: provider_doc(p) for n, p in v["providers"].items()},
           "variants": {l: {n: {f: [t[2] for t in ps if t[0] == n and t[1] == f] for f in [t[1] for t in ps if t[0] == n]} for n in [t[0] for t in ps]}
                        for l, ps in v["variants"].items()}}
    if v["static_properties"]: doc["static-properties"] = v["static_properties"]
    return doc


def provider_doc(p):
    d = {}
    if len(p[4]) > 0: d["requires"] = p[4]
    if p[1] is not None: d["enable-if"] = p[1]
    if p[3]: d["optional"] = True
    if p[0] is not None: d["plugin-api"] = p[0]
    if not p[2]: d["install-time"] = False
    return d


VJ = Named("variants json", gen_info)


def _written(o): return json.loads(o.to_str())


@contract("C10.to_str", ["C10"], "variantlib.variants_json:VariantsJson.to_str", {"o": VJ}, run=_written)
def spec_written(o): return to_doc(view(o))


def _roundtrip(o): return view(VariantsJson(json.loads(o.to_str())))


@contract("C10.roundtrip", ["C10"], "variantlib.variants_json:VariantsJson", {"o": VJ}, run=_roundtrip)
def spec_roundtrip(o): return view(o)


def shuffled(g, x):
    if isinstance(x, dict):
        ks = list(x); g.r.shuffle(ks)
        return {k: shuffled(g, x[k]) for k in ks}
    return x


def gen_info_shuffle(g):
    o = gen_info(g)
    p = copy.deepcopy(o)
    for a in ("feature_priorities", "property_priorities", "providers", "static_properties", "variants"):
        setattr(p, a, shuffled(g, getattr(p, a)))
    return (o, p)


@contract("C10.canonical_text", ["C10"], "variantlib.variants_json:VariantsJson.to_str", {}, gen=gen_info_shuffle, run=lambda a, b: a.to_str() == b.to_str())
def spec_canonical(a, b): return True


def _fields(o):
    return {k: x for k, x in view(o).items() if k != "variants"}


_CLS = {"index": VariantsJson, "wheel": VariantDistInfo, "pyproject": VariantPyProjectToml, "info": VariantInfo}


def _convert(o, kind):
    before = view(o)
    n = _CLS[kind](o)
    a, b = {}, {}
    mutables(o.__dict__ | {}, a); mutables(n.__dict__ | {}, b)
    for obj, acc in ((o, a), (n, b)):
        acc.pop(id(obj), None)
        for p in obj.providers.values(): acc[id(p)] = p
    a = {id(x) for x in list(o.__dict__.values())} | set(a) ; b = {id(x) for x in n.__dict__.values()} | set(b)
    return (type(n).__name__, view(n), bool(a & b), view(o) == before)


@contract("C10.convert", ["C10"], "variantlib.models.variant_info:VariantInfo.copy_as_kwargs",
          {"o": Named("metadata", lambda g: gen_info(g, g.pick([VariantsJson, VariantDistInfo, VariantPyProjectToml]))), "kind": Named("kind", lambda g: g.pick(["index", "wheel", "pyproject"]))}, run=_convert)
def spec_convert(o, kind):
    v = _fields(o)
    if kind != "pyproject": v["variants"] = {}
    return (_CLS[kind].__name__, v, False, True)


# ------------------------------------------------------------------ C11
def _agree(a, b):
    """priorities equal and provider definitions equal"""
    va, vb = view(a), view(b)
    return all(va[k] == vb[k] for k in ("namespace_priorities", "feature_priorities", "property_priorities", "providers"))


def gen_merge(g):
    a = gen_info(g)
    out = []
    for _ in range(g.r.randint(1, 3)):
        b = copy.deepcopy(a)
        for k in ("feature_priorities", "property_priorities", "providers"):
            if g.p(.3): setattr(b, k, shuffled(g, getattr(b, k)))
        b.variants = {}
        for _ in range(g.r.randint(0, 2)):
            l, d = gen_variant_entry(g); b.variants[l] = VariantDescription([VariantProperty(*t) for t in sorted(props_of(d))])
        if g.p(.2) and a.variants: b.variants[g.pick(list(a.variants))] = gen_vdesc(g)
        if g.p(.4):
            alter(g, b)
        out.append(b)
    if g.p(.3): out.append(copy.deepcopy(g.pick(out)))
    return (a, out)


def alter(g, b):
    k = g.r.random()
    if k < .2: b.namespace_priorities = b.namespace_priorities[::-1] if g.p(.5) else b.namespace_priorities + [g.ns()]
    elif k < .35: b.feature_priorities.setdefault(g.ns(), []).append(g.feat())
    elif k < .5: b.property_priorities.setdefault(g.ns(), {}).setdefault(g.feat(), []).append(g.val())
    elif k < .6: b.static_properties.setdefault(g.ns(), {}).setdefault(g.feat(), []).append(g.val())
    elif b.providers and k < .95:
        n = g.pick(list(b.providers)); p = b.providers[n]
        j = g.r.random()
        if j < .15: p.requires = p.requires + [g.pick(_REQS)]
        elif j < .3: p.requires = p.requires[::-1]
        elif j < .5: p.optional = not p.optional
        elif j < .7: p.plugin_api = g.pick(_APIS + [None])
        elif j < .85: p.enable_if = g.pick(_ENIF + [None])
        else: p.install_time = not p.install_time
    else:
        b.providers[g.ns()] = ProviderInfo(requires=["x"])


def _merge(a, bs):
    log = []
    for b in bs:
        try: a.merge(b); log.append("ok")
        except ValidationError: log.append("refused")
        log.append(view(a))
    return log


@contract("C11.merge", ["C11", "C18"], "variantlib.variants_json:VariantsJson.merge", {}, gen=gen_merge, run=_merge)
def spec_merge(a, bs):
    log = []
    for b in bs:
        if _agree(a, b):
            a.variants = {**a.variants, **b.variants}
            log.append("ok")
        else: log.append("refused")
        log.append(view(a))
    return log
