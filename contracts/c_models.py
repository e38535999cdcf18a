"""C01 C02 C03 C14 C16 C20 C22 C23(environment): variant objects, text forms, labels, wheel names, type validation."""
import collections
import collections.abc
import hashlib
import re
from typing import Any

from pyvc.contract import *
from pyvc.contract import _vm
from pyvc.concrete import AnyError
from variantlib.errors import ValidationError
from variantlib.models.provider import ProviderConfig, VariantFeatureConfig
from variantlib.models.variant import VariantDescription, VariantFeature, VariantProperty, VariantValidationResult
from variantlib.protocols import VariantFeatureConfigType

NAME_CHARS = "abcdefghijklmnopqrstuvwxyz0123456789_"
VALUE_CHARS = NAME_CHARS + "."
LABEL_CHARS = "0123456789abcdefghijklmnopqrstuvwxyz._"


def over(s, chars):
    """a non-empty string over chars"""
    return s != "" and all(c in chars for c in s)


def fields(s, *chars):
    """the fields of a text separated by "::", without surrounding white space, when there are as many as
    character sets and each is a non-empty string over its set; None otherwise"""
    parts = [p.strip() for p in s.split("::")]
    if len(parts) == len(chars) and all(over(p, c) for p, c in zip(parts, chars)): return tuple(parts)
    return None


def is_name(x): return type(x) is str and over(x, NAME_CHARS)
def is_value(x): return type(x) is str and over(x, VALUE_CHARS)


def maybe_name(g):
    k = g.r.random()
    if k < .7: return g.feat()
    if k < .9: return g.text()
    return g.json(1)


def maybe_value(g):
    k = g.r.random()
    if k < .7: return g.val()
    if k < .9: return g.text()
    return g.json(1)


MNAME = Named("name?", maybe_name)
MVALUE = Named("value?", maybe_value)


# ------------------------------------------------------------------ C02
def _mk_feature(ns, fe): return VariantFeature(ns, fe)
def _mk_property(ns, fe, va): return VariantProperty(ns, fe, va)


def _near(*base):
    """every single-character variation of acceptance: each ASCII character and some others, at each end"""
    chars = [chr(i) for i in range(0, 256)] + ["٣", "ſ", "K", "\u2028", "𝟗", "ⅷ", "İ", "\ud800"]
    for c in chars:
        yield c
        yield "a" + c
        yield c + "a"
        yield "a" + c + "b"


@contract("C02.feature", ["C02"], "variantlib.models.variant:VariantFeature", {"namespace": MNAME, "feature": MNAME},
          run=_mk_feature, cases=lambda: [p for s in _near() for p in ((s, "f"), ("n", s))])
def spec_mk_feature(namespace, feature):
    if not (is_name(namespace) and is_name(feature)): raise ValidationError("ill-formed")
    o = object.__new__(VariantFeature)
    object.__setattr__(o, "namespace", namespace)
    object.__setattr__(o, "feature", feature)
    return o


@contract("C02.property", ["C02"], "variantlib.models.variant:VariantProperty",
          {"namespace": MNAME, "feature": MNAME, "value": MVALUE}, run=_mk_property,
          cases=lambda: [p for s in _near() for p in ((s, "f", "v"), ("n", s, "v"), ("n", "f", s))])
def spec_mk_property(namespace, feature, value):
    if not (is_name(namespace) and is_name(feature) and is_value(value)): raise ValidationError("ill-formed")
    o = object.__new__(VariantProperty)
    object.__setattr__(o, "namespace", namespace)
    object.__setattr__(o, "feature", feature)
    object.__setattr__(o, "value", value)
    return o


def _maybe_prop(g):
    if g.p(.97): return VariantProperty(g.ns(), g.feat(), g.val())
    return g.pick([None, 1, "a", VariantFeature(g.ns(), g.feat()), ("a", "b", "c"), {"namespace": "a"}])


def key3(p): return (p.namespace, p.feature, p.value)


@contract("C02.description", ["C02", "C01"], "variantlib.models.variant:VariantDescription", {"properties": L(Named("prop?", _maybe_prop))},
          run=lambda props: VariantDescription(props).properties)
def spec_mk_description(properties):
    if any(type(p) is not VariantProperty for p in properties): raise AnyError()
    if any(properties[i] in properties[:i] for i in range(len(properties))): raise ValidationError("repeated")
    return sorted(properties, key=key3)


@contract("C02.description_container", ["C02"], "variantlib.models.variant:VariantDescription", {"properties": Named("json", lambda g: g.json(2))},
          run=lambda props: VariantDescription(props).properties, weight=.4, mode="bounded",
          why_bounded="arguments that are not lists at all")
def spec_mk_description_any(properties):
    if type(properties) not in (list, dict, str, tuple) or len(properties) > 0: raise AnyError()
    return []


@contract("C02.feature_config", ["C02", "C13"], "variantlib.models.provider:VariantFeatureConfig",
          {"name": MNAME, "values": O(L(MVALUE), .05), "multi_value": BOOL},
          run=lambda n, v, m: (lambda o: (o.name, o.values, o.multi_value))(VariantFeatureConfig(n, v, m)))
def spec_mk_feature_config(name, values, multi_value):
    if not is_name(name): raise ValidationError("name")
    if values is None or not all(is_value(v) for v in values): raise ValidationError("value")
    if len(values) == 0 or any(values[i] in values[:i] for i in range(len(values))): raise ValidationError("empty or repeated")
    return (name, values, multi_value)


def gen_fcfg(g):
    vals = g.uniq(g.val, g.r.randint(1, 4))
    return VariantFeatureConfig(g.feat(), vals, g.p(.3))


@contract("C02.provider_config", ["C02", "C13"], "variantlib.models.provider:ProviderConfig",
          {"namespace": MNAME, "configs": L(Named("fcfg?", lambda g: gen_fcfg(g) if g.p(.97) else g.json(1)))},
          run=lambda n, c: (lambda o: (o.namespace, o.configs))(ProviderConfig(n, c)))
def spec_mk_provider_config(namespace, configs):
    if not is_name(namespace): raise ValidationError("namespace")
    if len(configs) == 0 or any(type(c) is not VariantFeatureConfig for c in configs): raise ValidationError("configs")
    names = [c.name for c in configs]
    if any(names[i] in names[:i] for i in range(len(names))): raise ValidationError("repeated feature")
    return (namespace, configs)


# ------------------------------------------------------------------ C01
def _digest(props):
    return VariantDescription(props).hexdigest


def line(p): return p.namespace + " :: " + p.feature + " :: " + p.value + "\n"


@contract("C01.hexdigest", ["C01"], "variantlib.models.variant:VariantDescription.hexdigest", {"properties": L(VPROP, uniq=True)}, run=_digest)
def spec_hexdigest(properties): return hashlib.sha256(hashed(properties).encode()).hexdigest()[:8]


def hashed(properties): return "".join([line(p) for p in sorted(properties, key=key3)])


def _order(a, b):
    d, e = VariantDescription(a), VariantDescription(b)
    return (d.hexdigest, d.properties, e.hexdigest == d.hexdigest, e.properties == d.properties)


def _gen_orders(g):
    ps = L(VPROP, uniq=True).gen(g)
    qs = list(ps); g.r.shuffle(qs)
    return (ps, qs)


def same_set(a, b): return all(p in b for p in a) and all(p in a for p in b)


@contract("C01.order_free", ["C01"], "variantlib.models.variant:VariantDescription.hexdigest", {"a": L(VPROP, uniq=True), "b": L(VPROP, uniq=True)},
          gen=_gen_orders, pre=same_set, run=_order)
def spec_order(a, b):
    return (spec_hexdigest(b), sorted(b, key=key3), True, True)


def _hashed_text(props):
    """the bytes given to SHA-256"""
    import variantlib.models.variant as m
    class Rec:
        def __init__(self, *a): self.b = b"".join(a)
        def update(self, b): self.b += b
        def hexdigest(self): return self.b.hex() + "0" * 64
        def digest(self): return self.b
    texts = []
    class H:
        @staticmethod
        def sha256(*a):
            r = Rec(*a); texts.append(r); return r
    old = m.hashlib
    m.hashlib = H
    try: VariantDescription(props).hexdigest
    finally: m.hashlib = old
    return texts[0].b.decode()


def _gen_pair(g):
    return (L(VPROP, uniq=True).gen(g), L(VPROP, uniq=True).gen(g))


def _run_inj(a, b): return _hashed_text(a) == _hashed_text(b)


def _spec_inj(a, b): return hashed(a) == hashed(b)


@contract("C01.injective", ["C01"], "variantlib.models.variant:VariantDescription.hexdigest", {"a": L(VPROP, uniq=True), "b": L(VPROP, uniq=True)},
          gen=_gen_pair, run=_run_inj, entry=_spec_inj,
          cases=lambda: [([VariantProperty("a", "b", "cx"), VariantProperty("d", "e", "f")], [VariantProperty("a", "b", "c"), VariantProperty("xd", "e", "f")])])
def spec_injective(a, b):
    return sorted(a, key=key3) == sorted(b, key=key3)


def _cmd_hash(props):
    import io, sys
    from variantlib.commands.get_variant_hash import get_variant_hash
    old = sys.stdout; sys.stdout = io.StringIO()
    try:
        get_variant_hash(["-p"] + [p.to_str() for p in props])
        return sys.stdout.getvalue()
    finally: sys.stdout = old


@contract("C01.command", ["C01"], "variantlib.commands.get_variant_hash:get_variant_hash", {}, gen=lambda g: ([VPROP.gen(g)] + [],) if g.p(.3) else (L(VPROP, uniq=True).gen(g) or [VPROP.gen(g)],),
          run=_cmd_hash, mode="bounded", why_bounded="argparse and standard output are outside the verifier's subset", weight=.5)
def spec_cmd_hash(properties):
    return spec_hexdigest(properties) + "\n"


# ------------------------------------------------------------------ C03
_WS = ["", " ", "  ", "\t", "\n", "\u2003", "\x1c", "\xa0", "\u200b", "\r\n"]


def gen_text_form(g):
    if g.p(.2): return g.text()
    parts = [g.ns(), g.feat(), g.val()][: g.pick([2, 3, 3, 3, 1])]
    if g.p(.1): parts.append(g.val())
    if g.p(.15): parts[g.r.randrange(len(parts))] = g.text()
    sep = lambda: (g.pick(_WS) if g.p(.4) else " ") + ("::" if g.p(.95) else g.pick([":", ":::", ": :", "::::"])) + (g.pick(_WS) if g.p(.4) else " ")
    s = parts[0]
    for p in parts[1:]: s += sep() + p
    if g.p(.3): s = g.pick(_WS) + s + g.pick(_WS)
    return s


TEXTFORM = Named("textform", gen_text_form)


@contract("C03.property_from_str", ["C03"], "variantlib.models.variant:VariantProperty.from_str", {"input_str": TEXTFORM},
          run=lambda s: VariantProperty.from_str(s), cases=lambda: [(t,) for s in _near() for t in (s + "::f::v", "n::" + s + "::v", "n :: f :: " + s, "n" + s + "::" + "f::v")])
def spec_prop_from_str(input_str):
    parts = fields(input_str, NAME_CHARS, NAME_CHARS, VALUE_CHARS)
    if parts is None: raise ValidationError("not a property")
    return VariantProperty(parts[0], parts[1], parts[2])


@contract("C03.feature_from_str", ["C03"], "variantlib.models.variant:VariantFeature.from_str", {"input_str": TEXTFORM},
          run=lambda s: VariantFeature.from_str(s), cases=lambda: [(t,) for s in _near() for t in (s + "::f", "n::" + s)])
def spec_feat_from_str(input_str):
    parts = fields(input_str, NAME_CHARS, NAME_CHARS)
    if parts is None: raise ValidationError("not a feature")
    return VariantFeature(parts[0], parts[1])


@contract("C03.property_to_str", ["C03"], "variantlib.models.variant:VariantProperty.to_str", {"self": VPROP})
def spec_prop_to_str(self): return self.namespace + " :: " + self.feature + " :: " + self.value


@contract("C03.feature_to_str", ["C03", "C23"], "variantlib.models.variant:VariantFeature.to_str", {"self": Named("vfeat0", lambda g: VariantFeature(g.ns(), g.feat()))})
def spec_feat_to_str(self): return self.namespace + " :: " + self.feature


def _text_rt(p): return VariantProperty.from_str(p.to_str())
def _text_rt_f(p): return VariantFeature.from_str(p.to_str())
def _rec_rt(p): return VariantProperty.deserialize(p.serialize())
def _dict_rt(d): return VariantDescription.from_dict(d.to_dict())
def _dict_rt_hash(d): return VariantDescription.from_dict(d.to_dict()).hexdigest
def _desc_rec_rt(d): return VariantDescription.deserialize(d.serialize())


@contract("C03.text_roundtrip", ["C03"], "variantlib.models.variant:VariantProperty.from_str", {"p": VPROP}, run=_text_rt)
def spec_text_rt(p): return p


@contract("C03.feature_text_roundtrip", ["C03"], "variantlib.models.variant:VariantFeature.from_str",
          {"p": Named("vfeat0", lambda g: VariantFeature(g.ns(), g.feat()))}, run=_text_rt_f)
def spec_text_rt_f(p): return p


@contract("C03.record_roundtrip", ["C03"], "variantlib.models.variant:VariantProperty.deserialize", {"p": VPROP}, run=_rec_rt)
def spec_rec_rt(p): return p


@contract("C03.description_record_roundtrip", ["C03"], "variantlib.models.variant:VariantDescription.deserialize", {"d": VDESC}, run=_desc_rec_rt)
def spec_desc_rec_rt(d): return d


@contract("C03.dict_roundtrip", ["C03", "C10"], "variantlib.models.variant:VariantDescription.from_dict", {"d": VDESC}, run=_dict_rt)
def spec_dict_rt(d): return d


@contract("C03.dict_roundtrip_hash", ["C03"], "variantlib.models.variant:VariantDescription.from_dict", {"d": VDESC}, run=_dict_rt_hash, weight=.3)
def spec_dict_rt_hash(d): return d.hexdigest


@contract("C03.to_dict", ["C03", "C10"], "variantlib.models.variant:VariantDescription.to_dict", {"self": VDESC},
          run=lambda d: {n: dict(fs) for n, fs in d.to_dict().items()})
def spec_to_dict(self):
    return {n: {f: [p.value for p in self.properties if p.namespace == n and p.feature == f]
                for f in [p.feature for p in self.properties if p.namespace == n]}
            for n in [p.namespace for p in self.properties]}


@contract("C03.serialize", ["C03"], "variantlib.models.variant:VariantDescription.serialize", {"self": VDESC})
def spec_serialize(self):
    return [{"namespace": p.namespace, "feature": p.feature, "value": p.value} for p in self.properties]


@contract("C03.from_dict", ["C03", "C09"], "variantlib.models.variant:VariantDescription.from_dict", {"data": D(MNAME if 0 else Named("name?", lambda g: g.ns() if g.p(.95) else g.text()), D(Named("name?", lambda g: g.feat() if g.p(.95) else g.text()), L(Named("value?", lambda g: g.val() if g.p(.97) else g.text()))))},
          run=lambda d: VariantDescription.from_dict(d).properties)
def spec_from_dict(data):
    ps = [VariantProperty(n, f, v) for n, fs in data.items() for f, vs in fs.items() for v in vs]
    if any(ps[i] in ps[:i] for i in range(len(ps))): raise ValidationError("repeated")
    return sorted(ps, key=key3)


# ------------------------------------------------------------------ C16
def gen_label(g):
    k = g.r.random()
    if k < .2: return None
    if k < .35: return "null"
    if k < .7: return "".join(g.pick(LABEL_CHARS) for _ in range(g.pick([0, 1, 2, 8, 15, 16, 17, 32])))
    return g.text()


@contract("C16.label", ["C16", "C15"], "variantlib.api:get_variant_label", {"variant_desc": VDESC, "custom_label": Named("label?", gen_label)},
          cases=lambda: [(d, s) for s in list(_near()) + ["a" * n for n in range(0, 40)] for d in (VariantDescription([VariantProperty("a", "b", "c")]),)]
          + [(VariantDescription([]), s) for s in ("null", "nul", "Null", "", "a", "null\n", None)], opts={"result": "Str", "raises": ValidationError})
def spec_label(variant_desc, custom_label=None):
    null = len(variant_desc.properties) == 0
    if custom_label is None:
        return "null" if null else variant_desc.hexdigest
    if null:
        if custom_label != "null": raise ValidationError("null variant")
        return "null"
    if custom_label == "null": raise ValidationError("reserved")
    if not (1 <= len(custom_label) <= 16 and over(custom_label, LABEL_CHARS)): raise ValidationError("label")
    return custom_label


def _label_ok(d):
    from variantlib.api import get_variant_label
    from variantlib.constants import VALIDATION_VARIANT_LABEL_REGEX
    return VALIDATION_VARIANT_LABEL_REGEX.fullmatch(get_variant_label(d)) is not None


@contract("C16.default_label_valid", ["C16"], "variantlib.api:get_variant_label", {"d": VDESC}, run=_label_ok, weight=.3)
def spec_label_ok(d): return True


# ------------------------------------------------------------------ C14 (verdict)
def gen_vresult(g):
    ps = L(VPROP, uniq=True).gen(g)
    res = {p: g.pick([True, True, False, None]) for p in ps}
    if g.p(.5): res = {p: True if v is False else v for p, v in res.items()}
    viol = frozenset(VariantFeature(g.ns(), g.feat()) for _ in range(g.pick([0, 0, 0, 1, 2])))
    return (res, viol, g.p(.5))


def _run_verdict(results, violations, allow):
    r = VariantValidationResult(results, violations)
    return (r.is_valid(allow), r.invalid_properties, r.unknown_properties)


TRI = O(BOOL)


@contract("C14.verdict", ["C14"], "variantlib.models.variant:VariantValidationResult.is_valid",
          {"results": D(VPROP, TRI), "violations": SetT(Named("vfeat0", lambda g: VariantFeature(g.ns(), g.feat()))), "allow_unknown": BOOL},
          gen=gen_vresult, run=_run_verdict)
def spec_verdict(results, violations, allow_unknown):
    bad = [p for p, v in results.items() if v is False]
    unk = [p for p, v in results.items() if v is None]
    return (len(violations) == 0 and len(bad) == 0 and (allow_unknown or len(unk) == 0), bad, unk)


# ------------------------------------------------------------------ C23 (marker environment)
@contract("C23.environment", ["C23"], "variantlib.api:get_variant_environment_dict", {"variant_desc": VDESC, "variant_label": O(TEXT)})
def spec_environment(variant_desc, variant_label=None):
    out = {"variant_namespaces": {p.namespace for p in variant_desc.properties},
           "variant_features": {p.namespace + " :: " + p.feature for p in variant_desc.properties},
           "variant_properties": {p.namespace + " :: " + p.feature + " :: " + p.value for p in variant_desc.properties}}
    if variant_label is not None:
        out["variant_label"] = variant_label
    return out


# ------------------------------------------------------------------ C20
WS = [chr(i) for i in range(0x110000) if chr(i).isspace()]
DIG = set(chr(i) for i in range(0x110000) if chr(i).isdecimal())


def _seg(s): return s != "" and not any(c in WS or c == "-" for c in s)


def spec_wheel_parts(name, digit=False):
    """all ways to read the name (with a Python tag beginning with a digit, where asked)"""
    if not name.endswith(".whl"): return []
    f = name[:-4].split("-")
    out = []
    for labelled in (False, True):
        g = f[:-1] if labelled else f
        if labelled and not (f and 1 <= len(f[-1]) <= 16 and over(f[-1], LABEL_CHARS)): continue
        for build in (False, True):
            if len(g) != (6 if build else 5): continue
            nm, ver, rest = g[0], g[1], g[2:]
            if build:
                bt, rest = rest[0], rest[1:]
                if not (bt and bt[0] in DIG): continue
            else: bt = None
            # a Python tag does not begin with a digit
            if not (_seg(nm) and (ver == "" or _seg(ver)) and all(_seg(x) for x in rest)): continue
            if (rest[0][0] in DIG) != digit: continue
            out.append({"name": nm, "ver": ver, "namever": nm + "-" + ver, "build": bt, "pyver": rest[0], "abi": rest[1], "plat": rest[2],
                        "variant_label": f[-1] if labelled else None, "base_wheel_name": "-".join(g)})
    return out


def gen_wheel_name(g):
    k = g.r.random()
    seg = lambda: g.pick(["a", "pkg", "Foo.Bar", "1.0", "none", "any", "py3", "cp311", "2", "1_x", "manylinux_2_17_x86_64", "x86", "..", "é", "linux.whl"])
    if k < .1: return g.text() + g.pick([".whl", "", ".whl\n"])
    parts = [g.pick(["a", "pkg", "foo_bar", "x.y"]), g.pick(["1.0", "0", "1.0rc1", "1+l.1", ""])]
    if g.p(.3): parts.append(g.pick(["1", "2abc", "0_x", "1 x", "٣", "9."]))
    parts += [g.pick(["py3", "cp311", "py2.py3"]), g.pick(["none", "abi3", "cp311"]), g.pick(["any", "linux_x86_64", "win_amd64"])]
    if g.p(.5): parts.append("".join(g.pick(LABEL_CHARS) for _ in range(g.pick([0, 1, 4, 8, 16, 17]))) if g.p(.8) else g.text())
    if g.p(.15): parts.insert(g.r.randint(0, len(parts)), seg())
    if g.p(.15): parts[g.r.randrange(len(parts))] = g.pick([seg(), g.text(), "", " "])
    if g.p(.1): parts.pop(g.r.randrange(len(parts)))
    return "-".join(parts) + (".whl" if g.p(.95) else g.pick(["", ".WHL", ".whl\n", ".whl.whl", "xwhl"]))


def no_digit_python_tag(name):
    """the reading is unambiguous: dash-separated fields that may be Python tags do not begin with a digit"""
    f = name[:-4].split("-") if name.endswith(".whl") else name.split("-")
    return not any(x[:1] in DIG for x in f[3:5] if x) 


def _run_wheel(name):
    from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
    m = VALIDATION_WHEEL_NAME_REGEX.fullmatch(name)
    return None if m is None else m.groupdict()


def wheel_grammar(pyver, label=r"(?:-(?P<variant_label>[0-9a-z._]{1,16}))?"):
    """the statement of C20 as a grammar (tags are separated by `-`, a Python tag does not begin with a digit)"""
    return (r"(?P<base_wheel_name>(?P<namever>(?P<name>[^\s-]+)-(?P<ver>[^\s-]*))(?:-(?P<build>\d[^-]*))?-(?P<pyver>%s)-(?P<abi>[^\s-]+)-(?P<plat>[^\s-]+))%s\.whl"
            % (pyver, label))


WHEEL_GROUPS = ("base_wheel_name", "namever", "name", "ver", "build", "pyver", "abi", "plat", "variant_label")
PYTAG = r"[^\s\d-][^\s-]*"


def wheel_obligations():
    """every string: languages of readings (strings with the group boundaries marked), decided by automata"""
    from pyvc import regexp as R
    from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX as W
    fl = int(W.flags)
    spec, _ = R.tagged(wheel_grammar(PYTAG), 0, WHEEL_GROUPS)
    app, _ = R.tagged(wheel_grammar(PYTAG, r"-(?P<variant_label>[0-9a-z._]{1,16})"), 0, WHEEL_GROUPS)
    real, _ = R.tagged(W.pattern, fl, WHEEL_GROUPS)
    choice, _ = R.tagged(W.pattern, fl, WHEEL_GROUPS, True)
    digit = R.erase_tags(R.tagged(wheel_grammar(r"\d[^\s-]*"), 0, WHEEL_GROUPS)[0])
    def ob(name, codes, why):
        w = R.to_str(codes)
        return (name, codes is None, why + ("" if codes is None else ": %r" % w), None if codes is None else (w,))
    amb = R.ambiguous(spec)
    yield ob("grammar-is-unambiguous", amb and amb[0], "two readings of one name")
    yield ob("every-reading-is-a-reading-of-the-pattern", R.shortest(R.minus(spec, real)), "a reading the pattern does not have")
    yield ob("nothing-else-is-recognised", R.shortest(R.minus(R.minus(R.erase_tags(real), R.erase_tags(spec)), digit)), "recognised, but not a wheel file name")
    yield ob("the-reading-found-is-the-right-one", R.prefers_other(choice, spec), "the matcher finds another reading first")
    yield ob("appended-labels-read-back", R.shortest(R.minus(app, spec)), "label appended")


@contract("C20.wheel_name", ["C20"], "variantlib.constants:VALIDATION_WHEEL_NAME_REGEX", {"name": Named("wheel name", gen_wheel_name)}, run=_run_wheel,
          pre=lambda name: spec_wheel_parts(name) or not digit_tag(name), obligations=wheel_obligations,
          cases=lambda: [(t,) for s in _near() for t in ("a-1-py3-none-any-" + s + ".whl", "a" + s + "-1-py3-none-any.whl", "a-1-1" + s + "-py3-none-any.whl", "a-1-py3-none-any" + s, "a-1-py3-none-" + s + ".whl")])
def spec_wheel(name):
    r = spec_wheel_parts(name)
    assert len(r) <= 1
    return r[0] if r else None


def digit_tag(name):
    """some way to read the name has a Python tag beginning with a digit"""
    return bool(spec_wheel_parts(name, digit=True))


def label_like(s): return 1 <= len(s) <= 16 and over(s, LABEL_CHARS)


def _gen_append(g):
    for _ in range(50):
        n = gen_wheel_name(g)
        r = spec_wheel_parts(n)
        if len(r) == 1 and r[0]["variant_label"] is None: break
    else: n = "a-1-py3-none-any.whl"
    lab = "".join(g.pick(LABEL_CHARS) for _ in range(g.r.randint(1, 16)))
    return (n, lab)


def _run_append(name, label):
    from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX as R
    m = R.fullmatch(name)
    if m is None: return None
    base = m.group("base_wheel_name")
    m2 = R.fullmatch("%s-%s.whl" % (base, label))
    return None if m2 is None else (m2.group("base_wheel_name") == base, m2.group("variant_label"), base + ".whl" == name)


@contract("C20.append_label", ["C20", "C17"], "variantlib.constants:VALIDATION_WHEEL_NAME_REGEX", {}, gen=_gen_append, run=_run_append,
          pre=lambda n, l: len(spec_wheel_parts(n)) == 1, mode="bounded",
          why_bounded="corollary of C20.wheel_name")
def spec_append(name, label): return (True, label, True)


# ------------------------------------------------------------------ C22
class SubStr(str): pass
class SubList(list): pass
class SubDict(dict): pass
class SubInt(int): pass


class DuckConfig:
    name, multi_value, values = "x", False, ["y"]
    def __eq__(self, o): return isinstance(o, DuckConfig)
    def __hash__(self): return 7


TYPES = [str, bool, int, list[str], list[Any], dict[str, Any], dict[str, list[str]], dict[str, dict[str, list[str]]],
         dict[str, dict[str, dict[str, list[str]]]], set[str], list[VariantProperty], list[VariantDescription], VariantProperty, VariantDescription,
         collections.abc.Iterable, list[VariantFeatureConfigType], list[VariantFeature], list[VariantFeatureConfig], dict[Any, int], list[list[bool]], set[int]]


def shape_of(t, g, depth=3):
    """a value of type t, sometimes wrong somewhere"""
    if g.p(.04): return odd(g)
    if t is Any: return g.json(1)
    if t in (str,): return g.text()
    if t is bool: return g.p(.5)
    if t is int: return g.r.randint(-2, 3)
    if t is VariantProperty: return VPROP.gen(g)
    if t is VariantFeature: return VariantFeature(g.ns(), g.feat())
    if t is VariantDescription: return gen_vdesc(g)
    if t is VariantFeatureConfig: return gen_fcfg(g)
    if t is VariantFeatureConfigType: return gen_fcfg(g) if g.p(.8) else DuckConfig()
    if t is collections.abc.Iterable: return g.pick([[], "ab", {}, (1,), {1}, range(2), SubList()])
    o = t.__origin__
    n = g.r.randint(0, 3)
    if o is list: v = [shape_of(t.__args__[0], g) for _ in range(n)]; return SubList(v) if g.p(.05) else v
    if o is set:
        out = set()
        for _ in range(n):
            x = shape_of(t.__args__[0], g)
            try: out.add(x)
            except TypeError: pass
        return out
    v = {}
    for _ in range(n):
        k = shape_of(t.__args__[0], g)
        try: v[k] = shape_of(t.__args__[1], g)
        except TypeError: pass
    return SubDict(v) if g.p(.05) else v


def odd(g):
    return g.pick([None, True, 0, 1.5, "x", SubStr("x"), SubInt(3), b"x", [], [1], {}, {"a": 1}, {1: "a"}, (), ("a",), {1}, frozenset(), object, DuckConfig(),
                   VariantProperty("a", "b", "c"), VariantFeature("a", "b"), VariantDescription([]), ["a", 1], ["a", None], {"a": [1]}, {"a": {"b": "c"}}, [True], [[True], [1]]])


def gen_typed(g):
    i = g.r.randrange(len(TYPES))
    t = TYPES[i] if g.p(.9) else g.pick(TYPES)
    if g.p(.06) and getattr(t, "__origin__", None) in (list, dict, set):
        # long, and wrong at most at one place
        n = g.r.randint(6, 40)
        bad = g.r.randrange(n) if g.p(.6) else -1
        a = t.__args__
        one = lambda u, k: "k%d" % k if u is str else k if u is int else shape_of(u, g)
        at = g.r.randrange(len(a))
        xs = [[odd(g) if k == bad and j == at else one(u, k) for j, u in enumerate(a)] for k in range(n)]
        try: return ({x: y for x, y in xs} if t.__origin__ is dict else t.__origin__(x for x, in xs), i)
        except TypeError: pass
    return (odd(g) if g.p(.15) else shape_of(t, g), i)


def has_shape(v, t):
    if t is Any: return True
    if t is str: return isinstance(v, str)          # str is an iterable type
    o = getattr(t, "__origin__", None)
    if o in (list, set): return isinstance(v, o) and all(has_shape(x, t.__args__[0]) for x in v)
    if o is dict: return isinstance(v, dict) and all(has_shape(k, t.__args__[0]) and has_shape(x, t.__args__[1]) for k, x in v.items())
    if t is collections.abc.Iterable: return hasattr(type(v), "__iter__")
    if t is VariantFeatureConfigType: return all(hasattr(v, a) for a in ("name", "multi_value", "values"))
    return type(v) is t


def _run_type(v, i):
    from variantlib.validators.base import validate_type
    return validate_type(v, TYPES[i])


@contract("C22.validate_type", ["C22"], "variantlib.validators.base:validate_type", {}, gen=gen_typed, run=_run_type)
def spec_validate_type(v, i):
    if not has_shape(v, TYPES[i]): raise ValidationError("wrong shape")


# the same, proved for all JSON-like values (or all values of a record type) and each type the library asks for
def json_like(v):
    return v is None or type(v) in (bool, int, float, str) or type(v) is list and all(json_like(x) for x in v) \
        or type(v) is dict and all(type(k) is str and json_like(x) for k, x in v.items())


def _gen_like(t):
    def gen(g):
        for _ in range(5):
            v = shape_of(t, g) if g.p(.8) else g.json(3)
            if json_like(v): return (v,)
        return (None,)
    return gen


def _shape_contract(name, t, arg=JSON, gen=None):
    def run(v):
        from variantlib.validators.base import validate_type
        return validate_type(v, t)

    def spec(v):
        if not has_shape(v, t): raise ValidationError("wrong shape")
    contract("C22." + name, ["C22"], "variantlib.validators.base:validate_type", {"v": arg}, run=run, gen=gen or _gen_like(t), weight=.25,
             opts={"inline": ["variantlib.validators.base:validate_type"]})(spec)


for _n, _t in [("str", str), ("bool", bool), ("int", int), ("list_str", list[str]), ("list_any", list[Any]), ("dict_any", dict[str, Any]), ("dict_list", dict[str, list[str]]),
               ("dict_dict_list", dict[str, dict[str, list[str]]]), ("dict3", dict[str, dict[str, dict[str, list[str]]]]), ("list_list_bool", list[list[bool]]),
               ("dict_any_int", dict[Any, int]), ("iterable", collections.abc.Iterable), ("list_iterable", list[collections.abc.Iterable])]:
    _shape_contract(_n, _t)
for _n, _t, _a in [("property", VariantProperty, VPROP), ("not_a_property", VariantProperty, JSON), ("feature_not_property", VariantProperty, VFEAT), ("property_not_feature", VariantFeature, VFEAT),
                   ("list_property", list[VariantProperty], L(VFEAT)), ("list_description", list[VariantDescription], L(VDESC)), ("list_description_not", list[VariantDescription], L(VPROP)),
                   ("config_protocol", list[VariantFeatureConfigType], L(Named("fcfg?", gen_fcfg))), ("config_protocol_not", list[VariantFeatureConfigType], L(VPROP)),
                   ("list_config", list[VariantFeatureConfig], L(Named("fcfg?", gen_fcfg))), ("set_str", set[str], SetT(TEXT)), ("set_int", set[int], SetT(TEXT)),
                   ("list_not_set", list[str], SetT(TEXT)), ("set_not_list", set[str], L(TEXT))]:
    _shape_contract(_n, _t, _a, lambda g, a=_a: (a.gen(g),))
