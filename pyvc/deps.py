"""Contracts assumed of the library's dependencies (packaging, pathlib, the platform): uninterpreted functions of their
arguments, evaluated by the real ones in the cross-check."""
from __future__ import annotations
import ast, importlib.metadata, os, pathlib, sys, typing
from . import ir, lib
from .ir import *
from .interp import Unsupported, PyRaise, Cell, Sub, Obj, Raw, Opaque, MObj, LibCM, _MISSING


def _packaging():
    from packaging.markers import Marker, InvalidMarker, default_environment
    from packaging.requirements import Requirement, InvalidRequirement
    from packaging.utils import canonicalize_name
    from packaging.version import Version, InvalidVersion
    ok = lambda f, e: lambda s: _try(f, e, s)
    ir.APPS.update({"marker_ok": ok(Marker, InvalidMarker), "marker_holds": lambda s: Marker(s).evaluate(),
                    "req_ok": ok(Requirement, InvalidRequirement), "req_name": lambda s: Requirement(s).name,
                    "canonical_name": lambda s: str(canonicalize_name(s)),
                    "version_ok": ok(Version, InvalidVersion), "version_major": lambda s: Version(s).major,
                    "version_minor": lambda s: Version(s).minor, "version_micro": lambda s: Version(s).micro})
    def parsed(kind, okname, err):
        def f(it, args, kwargs):
            s = text(it, args[0])
            if not it.branch(App(okname, BOOL, s)): raise PyRaise(err, where=kind)
            return Opaque(kind, s)
        return f
    lib.TABLE.update({Marker: parsed("Marker", "marker_ok", InvalidMarker), Requirement: parsed("Requirement", "req_ok", InvalidRequirement),
                      Version: parsed("Version", "version_ok", InvalidVersion),
                      canonicalize_name: lambda it, a, k: App("canonical_name", STR, text(it, a[0])),
                      default_environment: lambda it, a, k: Opaque("default_environment", S("")),
                      typing.cast: lambda it, a, k: a[1],
                      pathlib.Path: lambda it, a, k: path(it, a)})


def _try(f, e, s):
    try: f(s)
    except e: return False
    return True


def text(it, v):
    v = it.unopt(v)
    if isinstance(v, Term) and v.sort == STR: return v
    raise Unsupported("a dependency called with %r" % (v,))


def path(it, a):
    if len(a) == 1 and isinstance(a[0], Opaque) and a[0].kind == "Path": return a[0]
    if len(a) == 1: return Opaque("Path", text(it, a[0]))
    raise Unsupported("Path(%r)" % (a,))


METHODS = {"Path": ("write_bytes", "write_text"), "Resource": ("read_bytes", "read_text"), "code": ("replace",), "json": ("decode",)}


def attr(it, v, name):
    s = v.term
    if v.kind == "Requirement" and name == "name": return App("req_name", STR, s)
    if v.kind == "Version" and name in ("major", "minor", "micro"): return App("version_" + name, INT, s)
    if v.kind == "Marker" and name == "evaluate": return lib.Meth(v, name)
    if v.kind == "environ" and name == "get": return lib.Meth(v, name)
    if v.kind in METHODS and name in METHODS[v.kind]: return lib.Meth(v, name)
    if v.kind == "process":
        if name == "returncode": return I(0)
        if name == "stdout": return Opaque("json", v.term)
    raise Unsupported("%s.%s" % (v.kind, name))


def method(it, v, name, args, kwargs):
    if v.kind == "Marker" and name == "evaluate":
        env = list(args) + list(kwargs.values())
        if env and not (isinstance(env[0], Opaque) and env[0].kind == "default_environment"): raise Unsupported("Marker.evaluate in another environment")
        return App("marker_holds", BOOL, v.term)
    if v.kind == "Path" and name in ("write_bytes", "write_text"):
        if not (isinstance(args[0], Opaque) and args[0].kind == "code" and v.term.op == "StrCat" and v.term.args[0].op == "App" and v.term.args[0].data == "temporary_directory"):
            raise Unsupported("a file is written")
        return NONE_T                      # the program run by the interpreter: its text is not looked at
    if v.kind == "Resource" and name in ("read_bytes", "read_text"): return Opaque("code", v.term)
    if v.kind == "code" and name == "replace": return v
    if v.kind == "json" and name == "decode": return v
    if v.kind == "environ" and name == "get":
        if len(args) == 1 and is_const(args[0]) and cval(args[0]) == "VARIANT_ABI_DEPENDENCY": return v.term
    raise Unsupported("%s.%s()" % (v.kind, name))


def binop(it, op, a, b):
    if isinstance(op, ast.Div) and a.kind in ("Path", "Resource"):
        return Opaque(a.kind, StrCat(a.term, S("/"), b.term if isinstance(b, Opaque) else text(it, b)))
    raise Unsupported("operator on %r" % (a,))


class TempDir(LibCM):
    def enter(self, it): return App("temporary_directory", STR)


def host(it, v):
    """the python value of a constant"""
    if isinstance(v, (Cell, Sub)):
        c = it.get(v)
        if isinstance(c, tuple):
            return {host(it, k): host(it, x) for k, x in c} if it.kindname(v) == "Map" else [host(it, x) for x in c]
    if isinstance(v, tuple): return [host(it, x) for x in v]
    r = it.pyval(v)
    if r is _MISSING: raise Unsupported("json.dumps of %r" % (v,))
    return r


def _files():
    import importlib.resources, json, tempfile
    ir.APPS["temporary_directory"] = lambda: "<temporary directory>"
    lib.TABLE.update({tempfile.TemporaryDirectory: lambda it, a, k: TempDir(),
                      importlib.resources.files: lambda it, a, k: Opaque("Resource", text(it, a[0])),
                      json.dumps: lambda it, a, k: S(json.dumps(host(it, a[0]), **{n: host(it, v) for n, v in k.items()}))})


def install():
    _packaging()
    _files()
