"""C17 C18 C19 C24: wheels, indexes, configuration files and pyproject.toml on a scratch file system.
The file formats (zip, CSV, TOML) and argparse are outside the verifier's subset: bounded checks."""
import base64
import contextlib
import csv
import hashlib
import importlib
import io
import itertools
import json
import os
import pathlib
import shutil
import sys
import tempfile
import tomllib
import zipfile
from unittest import mock

from pyvc.contract import *
from pyvc.concrete import AnyError
from contracts.c_info import (aot_always, aot_no_plugin, alter, common_ok, common_view, gen_doc, gen_info, gen_variant_entry, mutate, nested, plugin_api_ok, props_of,
                              str_dict, str_list, to_doc, variants_ok, variants_view, view, _agree)
from contracts.c_models import LABEL_CHARS, is_name, is_value, key3, over, spec_wheel_parts
from variantlib.errors import ValidationError
from variantlib.models.variant import VariantDescription, VariantProperty
from variantlib.pyproject_toml import VariantPyProjectToml
from variantlib.variant_dist_info import VariantDistInfo
from variantlib.variants_json import VariantsJson

WHY = "runs the command on generated files in a scratch directory; zip/CSV/TOML libraries, argparse and the file system are outside the verifier's subset"


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vc-")
    try: yield pathlib.Path(d)
    finally: shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    old = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try: yield
    finally: sys.stdout, sys.stderr = old


# ------------------------------------------------------------------ C17
_FILES = ["pkg/__init__.py", "pkg/a,b.py", 'pkg/q"uote.py', "pkg/é.txt", "pkg/variant.json", "pkg/sub/deep/x.dist-info/variant.json", "pkg-1.0.data/scripts/run",
          "pkg/data.bin", "top.py", "pkg/RECORD", "pkg/with space.txt", "pkg/x.dist-info", "pkg/"]


class Wheel:
    """a generated wheel: ordered members and the layout of RECORD"""
    def __init__(self, **kw): self.__dict__.update(kw)
    def __repr__(self): return "Wheel(%r)" % self.__dict__
    def __eq__(self, o): return isinstance(o, Wheel) and self.__dict__ == o.__dict__
    __hash__ = None


def gen_wheel(g, label=None, variant=None, di="pkg-1.0.dist-info"):
    names = g.uniq(lambda: g.pick(_FILES), g.r.randint(1, 5))
    if g.p(.5): names = [n for n in names if "," not in n and '"' not in n]
    m = [(n, b"" if n.endswith("/") else bytes(g.r.randrange(256) for _ in range(g.r.choice([0, 3, 40]))), g.pick([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]), g.pick([0o644, 0o755, 0o600]))
         for n in names]
    for n in ["METADATA", "WHEEL", "entry_points.txt", "licenses/LICENSE", "RECORD.jws"][: g.r.randint(2, 5)]:
        m.append((di + "/" + n, b"x: %d\n" % len(m), zipfile.ZIP_DEFLATED, 0o644))
    old = variant is None and g.p(.25)
    if old: m.insert(g.r.randint(0, len(m)), (di + "/variant.json", b"{}", zipfile.ZIP_STORED, 0o644))
    if variant is not None: m.insert(g.r.randint(0, len(m)), (di + "/variant.json", variant, zipfile.ZIP_DEFLATED, 0o644))
    return Wheel(members=m, di=di, record_at=len(m) if g.p(.8) else g.r.randint(0, len(m)), label=label,
                 eol=g.pick(["\n", "\n", "\r\n"]), final=g.p(.7), blank=g.p(.1), quote_all=g.p(.15), listed=g.p(.9))


def digest(data): return "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(data).digest()).rstrip(b"=").decode()


def record_text(w):
    out = io.StringIO()
    c = csv.writer(out, lineterminator=w.eol, quoting=csv.QUOTE_ALL if w.quote_all else csv.QUOTE_MINIMAL)
    for n, data, _, _ in w.members:
        if n.endswith("/") or (n.endswith(".dist-info/variant.json") and not w.listed): continue
        c.writerow([n, digest(data), len(data)])
    if w.blank: out.write(w.eol)
    c.writerow([w.di + "/RECORD", "", ""])
    t = out.getvalue()
    return (t if w.final else t[: -len(w.eol)]).encode()


def write_wheel(w, path):
    with zipfile.ZipFile(path, "w") as z:
        ms = list(w.members)
        ms.insert(w.record_at, (w.di + "/RECORD", record_text(w), zipfile.ZIP_DEFLATED, 0o644))
        for n, data, ct, mode in ms:
            i = zipfile.ZipInfo(n, (2020, 2, 3, 4, 6, 8))
            i.compress_type = ct; i.external_attr = mode << 16
            z.writestr(i, data)


def rows(data):
    """non-blank RECORD rows"""
    return [r for r in csv.reader(io.StringIO(data.decode(), newline="")) if r]


def see(path, di):
    """everything observable in a wheel: members in order without the metadata file, RECORD rows, metadata file"""
    with zipfile.ZipFile(path) as z:
        out, rec, var = [], None, None
        for i in z.infolist():
            data = z.read(i)
            if i.filename == di + "/RECORD":
                rec = rows(data)
                out.append((i.filename, None, i.external_attr))
            elif i.filename == di + "/variant.json":
                if var is not None: return "metadata file twice"
                var = data
            else: out.append((i.filename, data, i.external_attr, i.date_time, i.compress_type))
        return {"members": out, "record": rec, "variant": var}


_BASES = ["pkg-1.0-py3-none-any", "pkg-1.0-1-py3-none-any", "My.Pkg-1.0.dev1-cp311-abi3-manylinux_2_17_x86_64.manylinux2014_x86_64"]


def gen_make_args(g):
    for _ in range(20):
        doc = gen_doc(g, "pyproject")
        if common_ok(doc, aot_no_plugin) and not any(not p.get("install-time", True) and p.get("requires") for p in doc.get("providers", {}).values()) \
           and not has_null(doc): break
    else: doc = {}
    props = g.uniq(lambda: VariantProperty(g.ns(), g.feat(), g.val()), g.r.randint(0, 3))
    label = "".join(g.pick(LABEL_CHARS) for _ in range(g.r.randint(1, 16))) if props and g.p(.4) else None
    if label == "null": label = "nul"
    inlabel = None if g.p(.85) else (label or "abcd1234")
    return (gen_wheel(g, inlabel), g.pick(_BASES), props, label, doc, g.p(.15))


def has_null(x):
    if isinstance(x, dict): return any(has_null(v) for v in x.values())
    if isinstance(x, list): return any(has_null(v) for v in x)
    return x is None


def _make(d, w, base, props, label, doc, samedir):
    import tomlkit
    from variantlib.commands.make_variant import make_variant
    src = d / ("in" if not samedir else "out") / (base + ("-" + w.label if w.label else "") + ".whl")
    (d / "in").mkdir(); (d / "out").mkdir()
    write_wheel(w, src)
    before = src.read_bytes()
    py = d / "pyproject.toml"
    py.write_text(tomlkit.dumps({"variant": doc}), encoding="utf8")
    args = ["-f", str(src), "-o", str(d / "out"), "--no-isolation", "--skip-plugin-validation", "--pyproject-toml", str(py)]
    args += (["-p"] + [p.to_str() for p in props]) if props else ["--null-variant"]
    if label is not None: args += ["--variant-label", label]
    try:
        with quiet(): make_variant(args)
    except Exception as e:
        err = e
    else: err = None
    return src, before, err


def _run_make_variant(w, base, props, label, doc, samedir):
    with scratch() as d:
        src, before, err = _make(d, w, base, props, label, doc, samedir)
        kept = src.exists() and src.read_bytes() == before
        if err is not None: return ("error", kept)
        new = sorted(p.name for p in (d / "out").iterdir() if p != src)
        if len(new) != 1: return ("files", new)
        o = see(d / "out" / new[0], w.di)
        if isinstance(o, str): return o
        var = o.pop("variant")
        mine = [r for r in o["record"] if r[0] == w.di + "/variant.json"]
        o["record"] = [r for r in o["record"] if r[0] != w.di + "/variant.json"]
        return (kept, new[0], o, None if var is None else json.loads(var), mine == [[w.di + "/variant.json", digest(var or b""), str(len(var or b""))]])


def expected_members(w):
    ms = [(n, data, mode << 16, (2020, 2, 3, 4, 6, 8), ct) for n, data, ct, mode in w.members]
    ms.insert(w.record_at, (w.di + "/RECORD", None, 0o644 << 16))
    return [m for m in ms if m[0] != w.di + "/variant.json"]


@contract("C17.make", ["C17"], "variantlib.commands.make_variant:_make_variant", {}, gen=gen_make_args, run=_run_make_variant, mode="bounded", why_bounded=WHY, weight=2)
def spec_make_variant(w, base, props, label, doc, samedir):
    d = VariantDescription(props)
    lab = label if label is not None else ("null" if not props else d.hexdigest)
    name = base + "-" + lab + ".whl"
    if samedir and w.label == lab: return ("error", True)       # writing the output would overwrite the input
    v = common_view(doc)
    v["variants"] = {lab: [key3(p) for p in d.properties]}
    return (True, name, {"members": expected_members(w), "record": [r for r in rows(record_text(w)) if r[0] != w.di + "/variant.json"]}, to_doc(v), True)


def gen_unmake_args(g):
    label = "".join(g.pick(LABEL_CHARS) for _ in range(g.r.randint(1, 16))) if g.p(.9) else None
    return (gen_wheel(g, label, b'{"x": 1}' if g.p(.9) else None), g.pick(_BASES))


def _unmake(d, src, out):
    from variantlib.commands.unmake_variant import unmake_variant
    with quiet(): unmake_variant(["-f", str(src), "-o", str(out)])


def _run_unmake(w, base):
    with scratch() as d:
        src = d / (base + ("-" + w.label if w.label else "") + ".whl")
        write_wheel(w, src)
        before = src.read_bytes()
        (d / "out").mkdir()
        _unmake(d, src, d / "out")
        new = sorted(p.name for p in (d / "out").iterdir())
        return (src.read_bytes() == before, [(n, see(d / "out" / n, w.di)) for n in new])


@contract("C17.unmake", ["C17"], "variantlib.commands.unmake_variant:_unmake_variant", {}, gen=gen_unmake_args, run=_run_unmake, mode="bounded", why_bounded=WHY)
def spec_unmake(w, base):
    if w.label is None: return (True, [])
    return (True, [(base + ".whl", {"members": expected_members(w), "record": [r for r in rows(record_text(w)) if r[0] != w.di + "/variant.json"], "variant": None})])


def _run_round(w, base, props, label, doc, samedir):
    with scratch() as d:
        src, before, err = _make(d, w, base, props, label, doc, samedir)
        if err is not None: return "error"
        made = [p for p in (d / "out").iterdir() if p != src]
        (d / "back").mkdir()
        _unmake(d, made[0], d / "back")
        return [(p.name, see(p, w.di)) for p in (d / "back").iterdir()]


@contract("C17.roundtrip", ["C17"], "variantlib.commands.unmake_variant:_unmake_variant", {}, gen=gen_make_args, run=_run_round, mode="bounded", why_bounded=WHY)
def spec_round(w, base, props, label, doc, samedir):
    lab = label if label is not None else ("null" if not props else VariantDescription(props).hexdigest)
    if samedir and w.label == lab: return "error"
    return [(base + ".whl", {"members": expected_members(w), "record": [r for r in rows(record_text(w)) if r[0] != w.di + "/variant.json"], "variant": None})]


# ------------------------------------------------------------------ C18
def wheel_zip(path, di, variant):
    """variant: bytes of variant.json, None for no such file, or "broken" for a file that is no zip archive"""
    if variant == "broken":
        path.write_bytes(b"this is not a zip file"); return
    with zipfile.ZipFile(path, "w") as z:
        z.writestr("pkg/variant.json", "{}"); z.writestr("pkg/a.py", "")
        z.writestr(di + "/METADATA", "x")
        if variant is not None: z.writestr(di + "/variant.json", variant)
        z.writestr(di + "/RECORD", "")


def gen_wheel_set(g):
    """[(file name, dist-info directory, variant.json content)]"""
    base = gen_info(g)
    other = gen_info(g)
    out = []
    for _ in range(g.r.randint(0, 5)):
        pkg, ver = g.pick([("pkg", "1.0"), ("pkg", "1.0"), ("pkg", "1.0"), ("pkg", "2.0"), ("pkg_b", "1.0"), ("Pkg", "1.0"), ("pkg", "1.0+Loc.1")])
        o = VariantsJson(base if pkg == "pkg" else other)
        l, vd = gen_variant_entry(g)
        d = VariantDescription([VariantProperty(*t) for t in sorted(props_of(vd))])
        o.variants = {l: d}
        k = g.r.random()
        if k < .12: alter(g, o)
        label = l
        data = json.dumps(to_doc(view(o))).encode()
        if .12 < k < .2: data = json.dumps(mutate(g, to_doc(view(o)))).encode()
        elif .2 < k < .24: label = "".join(g.pick(LABEL_CHARS) for _ in range(4))
        elif .24 < k < .28: data = g.pick([b"", b"{", b"\xff\xfe", b"[]", b"null"])
        elif .28 < k < .31: data = None
        elif .31 < k < .34: data = "broken"
        elif .34 < k < .38: o.variants["zz"] = VariantDescription([VariantProperty("a", "b", "c")]); data = json.dumps(to_doc(view(o))).encode()
        tag = g.pick(["py3-none-any", "cp311-cp311-linux_x86_64"])
        if .38 < k < .45: fn = "%s-%s-%s.whl" % (pkg, ver, tag)
        elif .45 < k < .48: fn = g.pick(["notawheel.whl", "a-b.whl", "pkg-1.0.whl"])
        else: fn = "%s-%s-%s%s-%s.whl" % (pkg, ver, g.pick(["", "", "", "1-"]), tag, label)
        if fn not in [x[0] for x in out]: out.append((fn, "%s-%s.dist-info" % (pkg, ver), data))
    return out


def readable(data, label):
    """the metadata of one wheel if it is valid for its label"""
    if data is None or data == "broken": return None
    try: doc = json.loads(data)
    except ValueError: return None
    if not (common_ok(doc, aot_always) and variants_ok(doc)): return None
    if list(doc["variants"]) != [label]: return None
    return {**common_view(doc), "variants": variants_view(doc)}


_SHARED = ("namespace_priorities", "feature_priorities", "property_priorities", "providers")


def combine(items):
    """index of wheels taken in this order"""
    out = None
    for v in items:
        if out is None: out = {k: x for k, x in v.items()}
        elif all(out[k] == v[k] for k in _SHARED): out = {**out, "variants": {**out["variants"], **v["variants"]}}
    return out


def indexes(wheels):
    """{index file: every acceptable content (one per order of discovery)}"""
    groups = {}
    for fn, _, data in wheels:
        r = [x for x in spec_wheel_parts(fn)]
        if len(r) != 1 or r[0]["variant_label"] is None: continue
        v = readable(data, r[0]["variant_label"])
        if v is not None: groups.setdefault(r[0]["namever"] + "-variants.json", []).append(v)
    return {f: [to_doc(combine(p)) for p in itertools.permutations(vs)] for f, vs in groups.items()}


class OneOf:
    """matches any of the listed contents"""
    def __init__(self, xs): self.xs = xs
    def __eq__(self, o): return any(x == o for x in self.xs)
    def __repr__(self): return "OneOf(%r)" % (self.xs,)
    __hash__ = None


def _run_generate(wheels):
    from variantlib.commands.generate_index_json import generate_index_json
    with scratch() as d:
        for fn, di, data in wheels: wheel_zip(d / fn, di, data)
        with quiet(): generate_index_json(["-d", str(d)])
        return {p.name: json.loads(p.read_text()) for p in sorted(d.iterdir()) if p.suffix != ".whl"}


@contract("C18.generate", ["C18"], "variantlib.commands.generate_index_json:generate_index_json", {"wheels": Named("wheels", gen_wheel_set)}, run=_run_generate,
          mode="bounded", why_bounded=WHY, weight=2)
def spec_generate(wheels):
    return {f: OneOf(xs) for f, xs in indexes(wheels).items()}


def gen_add(g):
    ws = []
    while not ws: ws = gen_wheel_set(g)
    index = None
    if g.p(.7):
        o = gen_info(g)
        r = [x for x in spec_wheel_parts(ws[0][0])]
        v = readable(ws[0][2], r[0]["variant_label"]) if len(r) == 1 else None
        if v is not None and g.p(.85):
            v = {**v, "variants": {}}
            for _ in range(g.r.randint(0, 3)):
                l, vd = gen_variant_entry(g); v["variants"][l] = sorted(props_of(vd))
            index = to_doc(v)
        else: index = to_doc(view(o))
        if g.p(.1): index = json.loads(json.dumps(mutate(g, index)))
    return (ws[0], index, g.p(.4), g.pick(["same", "none", "other"]), g.p(.5))


def _run_add(wheel, index, inplace, existing, overwrite):
    from variantlib.commands.add_wheel_to_index_json import add_wheel_to_index_json
    fn, di, data = wheel
    with scratch() as d:
        wheel_zip(d / fn, di, data)
        out = d / "out"; out.mkdir()
        r = spec_wheel_parts(fn)
        name = (r[0]["namever"] if len(r) == 1 else "x-1") + "-variants.json"
        if existing == "same": (out / name).write_text('"precious"')
        args = ["-f", str(d / fn), "-o", str(out)] + (["-w"] if overwrite else [])
        if index is not None:
            ip = (out / name) if inplace and existing == "same" else d / "index.json"
            ip.write_text(json.dumps(index)); args += ["-i", str(ip)]
        before = {p.name: p.read_text() for p in out.iterdir()}
        try:
            with quiet(): add_wheel_to_index_json(args)
        except (Exception, SystemExit):
            return ("refused", {p.name: p.read_text() for p in out.iterdir()} == before)
        after = {p.name: json.loads(p.read_text()) for p in out.iterdir()}
        return ("written", after)


@contract("C18.add", ["C18"], "variantlib.commands.add_wheel_to_index_json:add_wheel_to_index_json", {}, gen=gen_add, run=_run_add, mode="bounded", why_bounded=WHY)
def spec_add(wheel, index, inplace, existing, overwrite):
    fn, di, data = wheel
    r = spec_wheel_parts(fn)
    if len(r) != 1 or r[0]["variant_label"] is None: return ("refused", True)
    v = readable(data, r[0]["variant_label"])
    if v is None: return ("refused", True)
    if index is not None:
        if not (common_ok(index, aot_always) and variants_ok(index)): return ("refused", True)
        b = {**common_view(index), "variants": variants_view(index)}
        if not all(b[k] == v[k] for k in _SHARED): return ("refused", True)
        v = combine([b, v])
    if existing == "same" and not overwrite: return ("refused", True)
    return ("written", {r[0]["namever"] + "-variants.json": to_doc(v)})


# ------------------------------------------------------------------ C19
def gen_config_doc(g):
    """(text, value) of a configuration file"""
    k = g.r.random()
    if k < .08: return g.pick(["x = ", "[", "a = 1\na = 2", "namespace_priorities = [\"a\"", "\x00"])
    doc = {}
    if g.p(.7): doc["namespace_priorities"] = [g.ns() for _ in range(g.r.randint(0, 3))]
    if g.p(.6): doc["feature_priorities"] = FEAT_PRIO.gen(g)
    if g.p(.6): doc["property_priorities"] = PROP_PRIO.gen(g)
    if g.p(.35):
        j = g.r.random()
        if j < .25: doc[g.pick(["namespaces", "Namespace_priorities", "x", "provider"])] = g.pick([[], {}, "x", 1])
        elif j < .75: doc[g.pick(["namespace_priorities", "feature_priorities", "property_priorities"])] = g.pick([0, False, "", "abc", {}, [], 1, True, [1], ["a", 1], ["A"], ["a b"], {"a": "f"}, {"A": []}, {"a": [1]}, {"a": {"f": "v"}}, {"a": {"f": [1]}}, {"a-b": {}}, {"a": {}}, 1.5])
        elif doc.get("namespace_priorities"): doc["namespace_priorities"].append(g.pick(["A", "a\n", "", "é", "a-b", g.text().replace("\x00", "")]))
    import tomlkit
    return tomlkit.dumps(doc)


def gen_configs(g):
    return tuple(gen_config_doc(g) if g.p(.45) else None for _ in range(4))


_PLACES = ("local", "venv", "user", "site")


def _run_config(*texts):
    import variantlib.configuration as c
    with scratch() as d:
        for p, t in zip(_PLACES, texts):
            (d / p).mkdir()
            if t is not None: (d / p / "variants.toml").write_text(t, encoding="utf8", newline="")
        old = os.getcwd(), sys.prefix
        clear = getattr(c.get_configuration_files, "cache_clear", lambda: None)
        try:
            os.chdir(d / "local"); sys.prefix = str(d / "venv"); clear()
            with mock.patch("platformdirs.user_config_path", lambda *a, **k: d / "user"), mock.patch("platformdirs.site_config_path", lambda *a, **k: d / "site"):
                c.VariantConfiguration.reset()
                m = c.VariantConfiguration.get_config()
                n = (list(c.VariantConfiguration.namespace_priorities), c.VariantConfiguration.feature_priorities, c.VariantConfiguration.property_priorities)
            return (m.namespace_priorities, m.feature_priorities, m.property_priorities), n
        finally:
            os.chdir(old[0]); sys.prefix = old[1]; clear(); c.VariantConfiguration.reset()


@contract("C19.config", ["C19"], "variantlib.configuration:VariantConfiguration.get_config", {}, gen=gen_configs, run=_run_config, mode="bounded", why_bounded=WHY)
def spec_config(*texts):
    present = [t for t in texts if t is not None]
    v = ([], {}, {}) if not present else config_value(present[0])
    return v, v


def config_value(text):
    try: doc = tomllib.loads(text)
    except tomllib.TOMLDecodeError: raise AnyError()
    return spec_model(doc)


def spec_model(doc):
    if any(k not in ("namespace_priorities", "feature_priorities", "property_priorities") for k in doc): raise AnyError()
    ns, fp, pp = doc.get("namespace_priorities", []), doc.get("feature_priorities", {}), doc.get("property_priorities", {})
    if not (str_list(ns) and all(is_name(n) for n in ns)): raise AnyError()
    if not (str_dict(fp) and all(is_name(n) and str_list(fs) for n, fs in fp.items())): raise AnyError()
    if not (nested(pp) and all(is_name(n) for n in pp)): raise AnyError()
    return (ns, fp, pp)


# ------------------------------------------------------------------ C24
_EPS = ["vp_a:Cls", "vp_b", "vp_pkg.mod:Cls.inner", "vp_c : x", "vp_e:a.b.c", "vp_f.g"]


def gen_update(g):
    from contracts.world import P
    for _ in range(20):
        doc = gen_doc(g, "pyproject")
        if common_ok(doc, aot_no_plugin) and not has_null(doc): break
    else: doc = {}
    for p in doc.get("providers", {}).values():
        if p.get("requires") == []: del p["requires"]
    have = list(doc.get("providers", {}))
    dists = []
    nss = g.uniq(g.ns, 4)
    refs = g.uniq(lambda: g.pick(_EPS), 4)
    for i, (ref, n) in enumerate(zip(refs, nss)):
        dists.append((g.pick(["dist-%d" % i, "Dist.%d" % i, "dist"]) if g.p(.3) else "prov%d" % i, g.pick(["1.0", "2.3.4rc1", "1.0+loc.1", "1!2.0.post1"]), ref, n))
    delete = [g.pick(have + [g.ns()]) for _ in range(g.r.randint(0, 2))]
    add = [g.pick([d[3] for d in dists] or ["a"]) if g.p(.92) else g.ns() for _ in range(g.r.randint(0, 2))]
    if not (delete or add): delete = [g.ns()]
    style = g.r.randrange(3)
    return (doc, style, dists, delete, add, g.p(.05))


def toml_text(doc, style):
    """the same content in several TOML layouts"""
    import tomlkit
    if style == 0: return '# top comment\n[project]\nname = "x" # keep\n\n' + tomlkit.dumps({"variant": doc})
    if style == 1: return tomlkit.dumps({"project": {"name": "x"}, "variant": doc}) + "\n[tool.x]\ny = 1\n"
    t = tomlkit.document()
    t["project"] = {"name": "x"}
    v = tomlkit.table()
    for k, x in doc.items():
        if k == "providers":
            tab = tomlkit.table()
            for n, p in x.items():
                it = tomlkit.inline_table(); it.update(p); tab[n] = it
            v[k] = tab
        else: v[k] = x
    t["variant"] = v
    return tomlkit.dumps(t)


def _run_update(doc, style, dists, delete, add, missing):
    from contracts.world import P, plugins
    from variantlib.commands.update_pyproject_toml import update_pyproject_toml
    world = {}
    from contracts.world import canonical
    for _, _, ref, n in dists: world[canonical(ref)] = P(n, [("f", ["v"], False)], [("f", ["v"], False)])
    with scratch() as d:
        sp = d / "site"; sp.mkdir()
        for i, (name, ver, ref, n) in enumerate(dists):
            di = sp / ("%s_%d-%s.dist-info" % (name.replace("-", "_"), i, ver)); di.mkdir()
            (di / "METADATA").write_text("Metadata-Version: 2.1\nName: %s\nVersion: %s\n" % (name, ver))
            (di / "entry_points.txt").write_text("[variant_plugins]\nep%d = %s\n" % (i, ref))
        f = d / "pyproject.toml"
        if not missing: f.write_text(toml_text(doc, style), encoding="utf8")
        before = None if missing else f.read_bytes()
        args = ["-f", str(f)] + (["-d"] + delete if delete else []) + (["-a"] + add if add else [])
        sys.path.insert(0, str(sp))
        importlib.invalidate_caches()
        try:
            with plugins(world), quiet():
                try: update_pyproject_toml(args)
                except (Exception, SystemExit): return ("refused", missing or f.read_bytes() == before)
            new = tomllib.loads(f.read_text())
        finally: sys.path.remove(str(sp))
        rest = {k: v for k, v in new.items() if k != "variant"}
        return ("written", normal(new.get("variant", {})), rest, common_ok(new.get("variant", {}), aot_no_plugin))


def normal(v):
    """the variant table, plugin references in canonical spelling"""
    from contracts.world import canonical
    out = {k: x for k, x in v.items() if k != "static-properties" or x}
    pr = {}
    for n, p in v.get("providers", {}).items():
        pr[n] = dict(p)
        if "plugin-api" in pr[n]: pr[n]["plugin-api"] = canonical(pr[n]["plugin-api"]) if plugin_api_ok(pr[n]["plugin-api"]) else "malformed: " + pr[n]["plugin-api"]
    out["providers"] = pr
    return out


def pre_update(doc, style, dists, delete, add, missing):
    """distinct distributions, each with one plugin"""
    return len({d[0] for d in dists}) == len(dists)


@contract("C24.update", ["C24"], "variantlib.commands.update_pyproject_toml:update_pyproject_toml", {}, gen=gen_update, run=_run_update, pre=pre_update, mode="bounded", why_bounded=WHY)
def spec_update(doc, style, dists, delete, add, missing):
    from contracts.world import canonical
    if missing: return ("refused", True)
    known = {n: (name, ver, ref) for name, ver, ref, n in dists}
    if any(n not in known for n in add): return ("refused", True)
    rest = {"project": {"name": "x"}}
    if style == 1: rest["tool"] = {"x": {"y": 1}}
    v = json.loads(json.dumps(doc))
    prio = v.setdefault("default-priorities", {})
    nsp = [n for n in prio.get("namespace", []) if n not in delete]
    prio["namespace"] = nsp + [n for i, n in enumerate(add) if n not in nsp and n not in add[:i]]
    pr = {n: p for n, p in v.get("providers", {}).items() if n not in delete}
    for n in add:
        name, ver, ref = known[n]
        p = pr.setdefault(n, {})
        p["plugin-api"] = ref
        if "requires" not in p: p["requires"] = ["%s >=%s" % (name, ver.split("+")[0])]      # >= does not take a local version
    v["providers"] = pr
    if "static-properties" in v:
        v["static-properties"] = {n: x for n, x in v["static-properties"].items() if n not in delete and n not in add}
    return ("written", normal(v), rest, True)
