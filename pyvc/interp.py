"""Symbolic executor for the real source of /repo.

Functions are taken from the imported modules, their bodies parsed from the
current source text; nothing is hand-copied.  Execution is by replay: a path is
a list of decisions on symbolic conditions, every decision sequence is explored.
Loops over sequences of unknown length are executed once on a generic element
and closed into comprehension terms (see loops below); there is no unrolling bound.

What the extraction drops (stated in DESIGN.md): logging calls, the text of
exception messages, docstrings/annotations, generator laziness (generators are
run to completion at creation; `L.extend(<generator>)` is desugared to a loop).
"""
from __future__ import annotations
import ast, inspect, itertools, types, re, sys, functools, builtins, collections, contextlib, dataclasses, enum, os
from . import ir
from .ir import *
from . import regexp

ir.REGEX_EVAL = lambda key, s: regexp.TABLE[key].accepts(s) if not isinstance(regexp.TABLE[key], tuple) else regexp.TABLE[key][2].fullmatch(s) is not None


class Unsupported(Exception):
    pass


class Signal(BaseException):
    pass


class PyRaise(Signal):
    def __init__(self, cls, val=None, where=""):
        self.cls, self.val, self.where = cls, val, where


class Ret(Signal):
    def __init__(self, val): self.val = val


class Brk(Signal): pass
class Cont(Signal): pass


class Infeasible(Signal): pass


# ------------------------------------------------------------------ values
_birth = itertools.count(1)


class MObj:
    """anything mutable: attributes live in .d and are written through Interp.write"""
    __slots__ = ("d", "birth")
    def __init__(self, d):
        self.d = d
        self.birth = next(_birth)


class Env(MObj):
    """local variables of one frame"""
    __slots__ = ("parent", "glob", "fname", "nonlocals")
    def __init__(self, parent, glob, fname, d=None):
        super().__init__(d if d is not None else {})
        self.parent, self.glob, self.fname = parent, glob, fname
        self.nonlocals = set()


def nested(s):
    """a container of containers"""
    def holds(s):
        if not isinstance(s, tuple): return s == J
        return s[0] in ("Seq", "Map", "Set") or (s[0] == "Tup" and any(holds(x) for x in s[1])) or (s[0] == "Opt" and holds(s[1]))
    return isinstance(s, tuple) and any(holds(x) for x in s[1:] if isinstance(x, tuple) or x == J)


# Cell.d['borrows']: containers found in the cell may also be found elsewhere.  True (elements), or how many containers deep
# (an int), or "maybe" / ("maybe", depth) when only its content tells whether they are shared
def borrow_depth(b): return 1 if b is True or b == "maybe" else b[1] if isinstance(b, tuple) else b


def maybe(b): return b == "maybe" or isinstance(b, tuple)


def deeper(b, n):
    d = borrow_depth(b) + n
    if maybe(b): return "maybe" if d == 1 else ("maybe", d)
    return True if d == 1 else d


def join_borrows(a, b):
    if not a or not b: return a or b
    d = min(borrow_depth(a), borrow_depth(b))
    return deeper("maybe" if maybe(a) and maybe(b) else True, d - 1)


class Cell(MObj):
    """list / dict / set.  d['val'] is a tuple of values (list/set), a tuple of (key,value) pairs (dict),
    or a Term of sort Seq / Map / Set."""
    __slots__ = ("kind", "default", "origin")
    def __init__(self, kind, val, default=None, origin=None):
        super().__init__({"val": val, "shares": frozenset()})
        self.kind, self.default, self.origin = kind, default, origin
        # containers inside a container built from a term may live elsewhere too, unless the maker says otherwise
        if isinstance(val, Term) and origin is None and nested(val.sort): self.d["borrows"] = "maybe"
    def __repr__(self): return "<%s cell %r>" % (self.kind, self.d["val"])


class Sub:
    """a mutable object stored inside a container term: reads/writes go through the parent"""
    __slots__ = ("parent", "path", "sort")
    def __init__(self, parent, path, sort):
        self.parent, self.path, self.sort = parent, path, sort
    def __repr__(self): return "<sub %r of %r>" % (self.path, self.parent)


class Obj(MObj):
    """instance of an ordinary (mutable) class"""
    __slots__ = ("cls", "origin")
    def __init__(self, cls, d, origin=None):
        super().__init__(d)
        self.cls, self.origin = cls, origin
    def __repr__(self): return "<obj %s %r>" % (self.cls.__name__, self.d)


class Closure:
    def __init__(self, node, env, glob, name, defaults, kwdefaults, cls=None):
        self.node, self.env, self.glob, self.name = node, env, glob, name
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
    def __repr__(self): return "<closure %s>" % self.name


class Bound:
    def __init__(self, self_, fn): self.self_, self.fn = self_, fn
    def __repr__(self): return "<bound %r>" % (self.fn,)


class Meth:
    """method of a library-modelled value"""
    def __init__(self, recv, name): self.recv, self.name = recv, name
    def __repr__(self): return "<method %s of %r>" % (self.name, self.recv)


class Iter(MObj):
    """iterator/generator already run to completion; d['seq'] is a tuple of values or a Seq term"""
    __slots__ = ()
    def __init__(self, seq): super().__init__({"seq": seq})
    def __repr__(self): return "<iter %r>" % (self.d["seq"],)


class Raw:
    """an opaque python object (float, bytes, module level instance ...)"""
    __slots__ = ("v",)
    def __init__(self, v): self.v = v
    def __repr__(self): return "<raw %r>" % (self.v,)
    def __eq__(self, o): return isinstance(o, Raw) and (self.v is o.v or self.v == o.v)
    def __hash__(self): return hash(repr(self.v))


class Opaque:
    """value of a dependency's class, known through its contract only"""
    def __init__(self, kind, term): self.kind, self.term = kind, term
    def __repr__(self): return "<%s %r>" % (self.kind, self.term)


class ExcVal:
    def __init__(self, cls): self.cls = cls


class Match:
    """result of a successful regular-expression match"""
    def __init__(self, pattern, flags, mode, s):
        self.pattern, self.flags, self.mode, self.s = pattern, flags, mode, s


class Stale:
    def __init__(self, why): self.why = why


class Groups:
    """itertools.groupby(src, key): src Seq term, key closure result as (x, keyterm)"""
    def __init__(self, src, x, key): self.src, self.x, self.key = src, x, key


class SuperProxy:
    def __init__(self, cls, self_): self.cls, self.self_ = cls, self_


class Outcome:
    def __init__(self, pc, kind, value, writes, facts=()):
        self.pc, self.kind, self.value, self.writes, self.facts = pc, kind, value, writes, list(facts)
    def __repr__(self): return "Outcome(%s, %s | %s)" % (self.kind, self.value, And(*self.pc))


NONE_SORTS = {}

SORT_CLS = {STR: str, INT: int, BOOL: bool, NONE: type(None)}


# ------------------------------------------------------------------ classes seen as immutable records
class RecInfo:
    """frozen value class: sort Rec(name), valid(fields) = class invariant, canonicalise(fields)"""
    def __init__(self, name, pycls, fields, construct, facts=None):
        self.name, self.pycls, self.fields, self.construct = name, pycls, fields, construct
        self.facts = facts or {}
        ir.REC_FIELDS[name] = fields


RECS: dict = {}          # python class -> RecInfo
RECS_BY_NAME: dict = {}
FIELD_LANG: dict = {}    # (rec, field) -> (pattern, flags): every value of that field matches fullmatch


def register_rec(info):
    RECS[info.pycls] = info
    RECS_BY_NAME[info.name] = info


# ------------------------------------------------------------------ source lookup
class Sources:
    def __init__(self):
        self.trees = {}
        self.found = {}

    def tree(self, filename):
        t = self.trees.get(filename)
        if t is None:
            with open(filename, encoding="utf8") as f: src = f.read()
            t = ast.parse(src)
            for n in ast.walk(t):
                for ch in ast.iter_child_nodes(n): ch._parent = n
            self.trees[filename] = t
        return t

    def find(self, fn):
        k = fn.__code__
        n = self.found.get(id(k))
        if n is None or n[0] is not k: n = self.found[id(k)] = (k, self.search(fn))
        return n[1]

    def search(self, fn):
        code = fn.__code__
        t = self.tree(code.co_filename)
        cands = []
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.name == code.co_name:
                first = min([n.lineno] + [d.lineno for d in n.decorator_list])
                if first == code.co_firstlineno or n.lineno == code.co_firstlineno: cands.append(n)
            elif isinstance(n, ast.Lambda) and code.co_name == "<lambda>" and n.lineno == code.co_firstlineno:
                cands.append(n)
        if len(cands) > 1:
            pos = [p for p in code.co_positions() if p[0] is not None and p[2] is not None]
            body = [(p[0], p[2]) for p in pos[1:]]
            best = [n for n in cands if isinstance(n, ast.Lambda) and body and
                    (n.body.lineno, n.body.col_offset) <= min(body) and
                    max((p[1], p[3]) for p in pos[1:]) <= (n.body.end_lineno, n.body.end_col_offset)]
            # the innermost candidate that contains all instructions
            if best:
                best.sort(key=lambda n: (n.body.end_lineno - n.body.lineno, n.body.end_col_offset - n.body.col_offset))
                return best[0]
        if not cands:
            raise Unsupported("source of %s not found" % getattr(fn, "__qualname__", fn))
        return cands[0]


SRC = Sources()


def is_repo_fn(fn):
    return isinstance(fn, types.FunctionType) and _interpretable(fn.__code__.co_filename)


INTERPRET_PREFIXES = [os.environ.get("VERIF_REPO", "/repo").rstrip("/") + "/", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/contracts"]


def _interpretable(filename):
    return any(filename.startswith(p) for p in INTERPRET_PREFIXES)


def has_yield(node):
    """does the function body (not nested functions) contain yield"""
    r = getattr(node, "_has_yield", None)
    if r is None: r = node._has_yield = _has_yield(node)
    return r


def _has_yield(node):
    for st in (node.body if isinstance(node.body, list) else [node.body]):
        for n in _walk_no_fn(st):
            if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
    return False


def _walk_no_fn(n):
    yield n
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)): return
    for ch in ast.iter_child_nodes(n):
        yield from _walk_no_fn(ch)


class Oracle:
    def __init__(self, prefix):
        self.prefix, self.k, self.made = prefix, 0, []


class Spec:
    """a callee under contract: called instead of its body"""
    def __init__(self, name, fn, requires=None):
        self.name, self.fn, self.requires = name, fn, requires


# ------------------------------------------------------------------ interpreter
def plain(s):
    """data made of texts, numbers, truth values, lists and dictionaries with text keys"""
    if s in (STR, INT, BOOL, J, NONE): return True
    return isinstance(s, tuple) and (s[0] in ("Seq", "Opt") and (s[1] is None or plain(s[1])) or s[0] == "Map" and s[1] in (STR, None) and (s[2] is None or plain(s[2])))


class Interp:
    def __init__(self, entails=None):
        self.journal = []
        self.pc = []
        self.oracle = None
        self.callees_used = set()  # contracts of callees the code's calls were replaced by
        self.tuples = set()        # terms standing for tuples (not lists)
        self.contracts = {}        # python function -> handler(interp, args, kwargs)
        self.entails = entails     # optional prover used to prune branches
        self.elements = []         # (variable, sequence it is an arbitrary element of) of the loops being explored
        self.depth = 0
        self.steps = 0
        self.calls = collections.Counter()
        self.inlined = set()
        self.yield_stack = []
        self.global_over = {}      # (module name, global name) -> value
        self.globals_written = []
        self.active = []
        self.callee_obls = []      # (name, pc, condition) preconditions of callees to be proved

    # ------------------------------------------------------------ state
    def write(self, obj, key, val):
        old = obj.d.get(key, _MISSING)
        self.journal.append((obj, key, old))
        obj.d[key] = val

    def undo(self, mark):
        while len(self.journal) > mark:
            obj, key, old = self.journal.pop()
            if old is _MISSING: obj.d.pop(key, None)
            else: obj.d[key] = old

    def assume(self, c):
        if c is TRUE: return
        if c is FALSE: raise Infeasible()
        if self.known(c) is False: raise Infeasible()
        self.pc.append(c)

    def known(self, c):
        """decide c from the literals on the path condition (syntactically, plus the prover hook)"""
        if c is TRUE: return True
        if c is FALSE: return False
        n = Not(c)
        lits = set()
        for p in self.pc:
            if p is c: return True
            if p is n: return False
            if p.op == "And":
                if c in p.args: return True
                if n in p.args: return False
        if c.op == "Ex" and len(c.data[0]) == 1:
            # an item known to be there is a witness
            for p in self.pc:
                if p.op == "SMem" and p.args[0] is c.args[0] and self.known(subst(c.args[1], {c.data[0][0]: p.args[1]})) is True: return True
        if c.op == "And":
            r = [self.known(a) for a in c.args]
            if all(x is True for x in r): return True
            if any(x is False for x in r): return False
        if c.op == "Or":
            r = [self.known(a) for a in c.args]
            if any(x is True for x in r): return True
            if all(x is False for x in r): return False
        if c.op == "Not":
            r = self.known(c.args[0])
            if r is not None: return not r
        r = self.static_fact(c)
        if r is not None: return r
        return None

    def static_fact(self, c):
        """facts from class invariants"""
        if c.op == "InRe":
            a = c.args[0]
            key = a.data if a.op == "Fld" else None
            if a.op == "Var":
                for p in self.pc:
                    if p.op == "SMem" and p.args[1] is a and p.args[0].op == "Fld": key = p.args[0].data + ("*",)
            if key in FIELD_LANG and not c.data.startswith("T"):
                pat, fl = FIELD_LANG[key]
                d = regexp.lang(pat, fl)
                t = regexp.TABLE[c.data]
                if regexp.subset(d, t): return True
                if regexp.inter(d, t).is_empty(): return False
        return None

    def branch(self, c):
        if isinstance(c, bool): return c
        if c is TRUE: return True
        if c is FALSE: return False
        if self.opq: c = self.unopq(c)
        k = self.known(c)
        if k is not None: return k
        o = self.oracle
        if o is None: raise Unsupported("symbolic branch outside exploration: %s" % show(c))
        if o.k < len(o.prefix):
            d = o.prefix[o.k]
        else:
            d = True
            r = self.of_elements(c)
            if r is not None: d = "T" if r else "F"
            elif self.entails is not None:
                r = self.entails(self.pc, c)
                if r is True: d = "T"
                elif r is False: d = "F"
        o.k += 1
        o.made.append(d)
        v = d in (True, "T")
        if d in (True, False):
            self.pc.append(c if v else Not(c))
            if len(self.pc) > 400: raise Unsupported("path too long")
        return v

    def of_elements(self, c):
        """decide c, about an arbitrary element of a composed sequence, from what is known of the sequence's parts"""
        if ir.size(c) > 300: return None
        from . import lower
        m = None
        chosen = lower.choices([c])
        if chosen:
            facts = [f for t in chosen for f in self.choice_facts(t)]
            if True:
                lits = lower.saturate(self.pc + facts)
                if lits is None: raise Infeasible()
                m = lower.hyp_map(lits)
                c = lower.simp(c, m, {})
                if c is TRUE: return True
                if c is FALSE: return False
        todo = [(x, s) for x, s in self.elements if s.op in ("SCat", "SComp", "SDedup", "SOfSet", "SSort")]
        if not any(x in c.fv for x, _ in todo): return None
        for v in (True, False):
            q = Not(c) if v else c
            for x, s in reversed(self.elements):
                if x not in q.fv: continue
                y = fresh("y", x.sort)
                q = ir.Ex(y, None, s, subst(q, {x: y}))
                if ir.size(q) > 3000: break
                if q is not FALSE and s.op in ("SCat", "SComp", "SDedup", "SOfSet", "SSort"):
                    if m is None: m = lower.hyp_map(lower.lits_of(self.pc))
                    q = lower.simp(q, m, {})
                if q is FALSE: return v
        return None

    def choice_facts(self, t):
        """what is known of the first or last item satisfying a condition, when there is one"""
        (x,), (src, cond, _) = t.data[0], t.args
        if self.known(ir.Ex(x, None, src, cond)) is not True: return []
        return [f for f in (SMem(src, t), subst(cond, {x: t})) if f is not TRUE]

    opq = ()

    def unopq(self, t):
        for q in self.opq: t = replace(t, q, q.args[0])
        return t

    def explore(self, thunk, limit=4000):
        outs, work = [], [[]]
        n = 0
        while work:
            prefix = work.pop()
            n += 1
            if n > limit: raise Unsupported("too many paths")
            mark, pcm = len(self.journal), len(self.pc)
            birth = next(_birth)
            saved, self.oracle = self.oracle, Oracle(prefix)
            ystack = len(self.yield_stack)
            d0 = self.depth
            act0 = len(self.active)
            try:
                kind, val = None, None
                try:
                    val = thunk(); kind = "normal"
                except PyRaise as e: kind, val = "raise", e
                except Ret as e: kind, val = "return", e.val
                except Brk: kind = "break"
                except Cont: kind = "normal"
                except Infeasible: kind = None
                if kind is not None:
                    writes = {}
                    memo = {}
                    for obj, key, old in self.journal[mark:]:
                        if obj.birth < birth:
                            writes[(obj, key)] = self.snapshot(obj.d.get(key, _MISSING), birth, memo)
                    if isinstance(val, PyRaise):
                        val = PyRaise(val.cls, self.snapshot(val.val, birth, memo), val.where)
                    else: val = self.snapshot(val, birth, memo)
                    outs.append(Outcome(list(self.pc[pcm:]), kind, val, writes))
            finally:
                del self.yield_stack[ystack:]
                self.depth = d0
                del self.active[act0:]
                o, self.oracle = self.oracle, saved
                self.undo(mark)
                del self.pc[pcm:]
            for j in range(len(prefix), len(o.made)):
                if o.made[j] is True:
                    work.append(o.made[:j] + [False])
        return outs

    def snapshot(self, v, birth, memo):
        """copy of a value that survives undo; objects older than `birth` keep their identity"""
        if isinstance(v, tuple): return tuple(self.snapshot(x, birth, memo) for x in v)
        if isinstance(v, Sub): return Sub(self.snapshot(v.parent, birth, memo), v.path, v.sort)
        if not isinstance(v, MObj) or isinstance(v, Env) or v.birth < birth: return v
        if v in memo: return memo[v]
        if isinstance(v, Cell): n = Cell(v.kind, (), v.default, v.origin)
        elif isinstance(v, Obj): n = Obj(v.cls, {}, v.origin)
        elif isinstance(v, Iter): n = Iter(())
        else: return v
        memo[v] = n
        n.d = {k: self.snapshot(x, birth, memo) for k, x in v.d.items()}
        return n

    def require(self, cid, pre, terms):
        """the precondition of a callee at this point becomes an obligation"""
        from . import verify
        outs = self.explore(lambda: self.call(pre, [verify.wrap(self, t) for t in terms], {}))
        goal = Or(*[And(*o.pc, self.truth(o.value)) for o in outs if o.kind == "normal"])
        ob = (cid, list(self.pc), goal)
        if not any(x[0] == cid and x[1] == ob[1] and x[2] is goal for x in self.callee_obls): self.callee_obls.append(ob)

    # ------------------------------------------------------------ conversions
    def lift(self, v):
        """python constant -> value"""
        if isinstance(v, bool): return B(v)
        if isinstance(v, enum.Enum): return Raw(v)
        if isinstance(v, int): return I(v)
        if isinstance(v, str): return S(v)
        if v is None: return NONE_T
        if isinstance(v, tuple): return tuple(self.lift(x) for x in v)
        if isinstance(v, (list,)): return Cell("list", tuple(self.lift(x) for x in v), origin=("pyconst", id(v)))
        if isinstance(v, (set, frozenset)): return Cell("set", tuple(self.lift(x) for x in sorted(v, key=repr)))
        if isinstance(v, dict): return Cell("dict", tuple((self.lift(k), self.lift(x)) for k, x in v.items()), origin=("pyconst", id(v)))
        if isinstance(v, (type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, types.MethodType,
                          re.Pattern, functools.partial, types.GenericAlias)): return v
        if callable(v) and not isinstance(v, type): return v
        if isinstance(v, (float, bytes)): return Raw(v)
        return v if getattr(v, "_pyvc_value_", False) else Raw(v)

    def get(self, v):
        """the content of a container value: tuple or Term"""
        if isinstance(v, Cell): return v.d["val"]
        if isinstance(v, Sub):
            base = self.get(v.parent)
            return self.sub_get(base, v.path)
        if isinstance(v, Iter): return v.d["seq"]
        return v

    def sub_get(self, base, path):
        kind, k = path
        base = self.as_term(base)
        if kind == "key": return MGet(base, k)
        if kind == "idx": return SNth(base, k)
        raise Unsupported("sub " + kind)

    def put(self, v, content, nest=0):
        if isinstance(v, Cell):
            if v.d.get("frozen"): raise Unsupported("mutation of an object that was copied into a term: " + str(v.d["frozen"]))
            old = v.d["val"]
            if isinstance(old, tuple) and isinstance(content, Term) and nested(content.sort) and not v.d.get("borrows"):
                from .lib import borrowed, inner_borrow
                if any(borrowed(self, x) for x in old): self.write(v, "borrows", True)
                else:
                    for x in old:
                        if inner_borrow(x): self.write(v, "borrows", join_borrows(v.d.get("borrows"), deeper(inner_borrow(x), 1)))
            self.write(v, "val", content)
        elif isinstance(v, Sub):
            if nest == 0:
                root, k = v, 0
                while isinstance(root, Sub): root = root.parent; k += 1
                if isinstance(root, Cell) and root.d.get("borrows") and borrow_depth(root.d["borrows"]) <= k: raise Unsupported("mutation of an object that may be shared with another container")
            base = self.as_term(self.get(v.parent))
            t = self.as_term(content, v.sort)
            if v.path[0] == "key": self.put(v.parent, MUpd(base, v.path[1], t), 1)
            else: self.put(v.parent, SUpd(base, v.path[1], t), 1)
        else: raise Unsupported("mutation of an immutable value %r" % (v,))

    def sort_of(self, v):
        """sort of a value as a term; element sorts may be None when unknown (empty)"""
        if isinstance(v, Term): return v.sort
        if isinstance(v, bool): return BOOL
        if isinstance(v, tuple): return ("Tup", tuple(self.sort_of(x) for x in v))
        if isinstance(v, Sub): return v.sort
        if isinstance(v, (Cell, Iter)):
            c = self.get(v)
            if isinstance(c, Term): return c.sort
            if isinstance(v, Cell) and v.kind == "dict":
                ks = self.unify_all([self.sort_of(k) for k, _ in c]); vs = self.unify_all([self.sort_of(x) for _, x in c])
                return ("Map", ks, vs)
            es = self.unify_all([self.sort_of(x) for x in c])
            return ("Set", es) if isinstance(v, Cell) and v.kind == "set" else ("Seq", es)
        if isinstance(v, Obj):
            raise Unsupported("object of class %s used as a term" % v.cls.__name__)
        if isinstance(v, (type, types.GenericAlias)): return U("type")
        if isinstance(v, Raw): return U("raw")
        if isinstance(v, Opaque) and v.kind == "Path": return STR
        raise Unsupported("no sort for %r" % (v,))

    def unify_all(self, ss):
        r = None
        for s in ss: r = self.unify(r, s)
        return r

    def unify(self, a, b):
        if a == b: return a
        if a is None: return b
        if b is None: return a
        if a == J or b == J: return J
        if a == NONE: return b if isinstance(b, tuple) and b[0] == "Opt" else ("Opt", b)
        if b == NONE: return a if isinstance(a, tuple) and a[0] == "Opt" else ("Opt", a)
        if isinstance(a, tuple) and a[0] == "Opt":
            u = self.unify(a[1], b[1] if isinstance(b, tuple) and b[0] == "Opt" else b)
            return u if u == J else ("Opt", u)
        if isinstance(b, tuple) and b[0] == "Opt":
            u = self.unify(a, b[1])
            return u if u == J else ("Opt", u)
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0]:
            if a[0] in ("Seq", "Set"): return (a[0], self.unify(a[1], b[1]))
            if a[0] == "Map": return ("Map", self.unify(a[1], b[1]), self.unify(a[2], b[2]))
            if a[0] == "Tup" and len(a[1]) == len(b[1]):
                return ("Tup", tuple(self.unify(x, y) for x, y in zip(a[1], b[1])))
        if {a, b} == {INT, BOOL}: return INT
        if plain(a) and plain(b): return J      # different kinds of plain data
        raise Unsupported("cannot unify sorts %s and %s" % (a, b))

    def complete(self, s):
        """replace unknown element sorts"""
        if s is None: return STR
        if isinstance(s, tuple):
            if s[0] == "Tup": return ("Tup", tuple(self.complete(x) for x in s[1]))
            return (s[0],) + tuple(self.complete(x) if not isinstance(x, str) or s[0] not in ("Rec", "U") else x for x in s[1:])
        return s

    def as_term(self, v, sort=None):
        """value -> Term (containers are snapshotted)"""
        if isinstance(v, bool): v = B(v)
        if sort is None and not isinstance(v, Term):
            sort = self.complete(self.sort_of(v))
        if isinstance(v, Term):
            return self.coerce(v, sort) if sort is not None else v
        if sort is not None and isinstance(sort, tuple) and sort[0] == "Opt":
            return SomeT(self.as_term(v, sort[1]))
        if sort == J:
            return self.to_j(v)
        if isinstance(v, tuple):
            if isinstance(sort, tuple) and sort[0] == "Tup":
                return MkTup(*[self.as_term(x, s) for x, s in zip(v, sort[1])])
            if isinstance(sort, tuple) and sort[0] == "Seq":
                return SLit(sort[1], *[self.as_term(x, sort[1]) for x in v])
            if isinstance(sort, tuple) and sort[0] == "Set":
                return SetOf(SLit(sort[1], *[self.as_term(x, sort[1]) for x in v]))
            if isinstance(sort, tuple) and sort[0] == "Map":
                return MOf(SLit(Tup(sort[1], sort[2]), *[MkTup(self.as_term(k, sort[1]), self.as_term(x, sort[2])) for k, x in v]))
        if isinstance(v, (Cell, Sub, Iter)):
            return self.as_term(self.get(v), sort)
        if isinstance(v, (type, types.GenericAlias)):
            return mk("Const", (), U("type"), ("t", v))
        if isinstance(v, Raw):
            return mk("Const", (), U("raw"), ("r", v))
        if isinstance(v, Opaque) and v.kind == "Path" and sort in (None, STR): return v.term      # an item of a command line
        raise Unsupported("value %r is not a term" % (v,))

    def coerce(self, t, sort):
        s = t.sort
        if s == sort or sort is None: return t
        if isinstance(sort, tuple) and sort[0] == "Opt":
            if s == NONE: return NoneOf(sort[1])
            if isinstance(s, tuple) and s[0] == "Opt":
                return Ite(IsSome(t), SomeT(self.coerce(TheSome(t), sort[1])), NoneOf(sort[1]))
            return SomeT(self.coerce(t, sort[1]))
        if isinstance(s, tuple) and s[0] == "Opt":
            if sort == J: return Ite(IsSome(t), self.coerce(TheSome(t), J), ToJ(NONE_T))
            return self.coerce(TheSome(t), sort)
        if sort == J: return self.to_j(t)
        if s == J:
            k = {STR: "str", BOOL: "bool", INT: "int"}.get(sort)
            if k is None and isinstance(sort, tuple): k = {"Seq": "list", "Map": "dict"}.get(sort[0])
            if k:
                r = JAs(k, t)
                return self.coerce(r, sort)
        if sort == INT and s == BOOL: return Ite(t, I(1), I(0))
        if isinstance(sort, tuple) and isinstance(s, tuple) and s[0] == sort[0]:
            if s[0] == "Seq":
                if t.op == "SLit" and not t.args: return SEmpty(sort[1])
                return smap(t, lambda x: self.coerce(x, sort[1]))
            if s[0] == "Set": return SetOf(smap(set_elems(t), lambda x: self.coerce(x, sort[1])))
            if s[0] == "Map":
                ps = pairs_of(t)
                if ps.op == "SLit" and not ps.args: return MEmpty(sort[1], sort[2])
                return MOf(smap(ps, lambda p: MkTup(self.coerce(Proj(0, p), sort[1]), self.coerce(Proj(1, p), sort[2]))))
            if s[0] == "Tup" and len(s[1]) == len(sort[1]):
                return MkTup(*[self.coerce(Proj(i, t), sort[1][i]) for i in range(len(s[1]))])
        raise Unsupported("cannot view %s as %s" % (s, sort))

    def to_j(self, v):
        if isinstance(v, Term):
            if v.sort == J: return v
            if v.sort in (STR, BOOL, INT, NONE): return ToJ(v)
            if isinstance(v.sort, tuple):
                if v.sort[0] == "Seq": return ToJ(self.coerce(v, Seq(J)))
                if v.sort[0] == "Map": return ToJ(self.coerce(v, Map(STR, J)))
                if v.sort[0] == "Opt": return self.coerce(v, J)
            raise Unsupported("to_j %s" % (v.sort,))
        if isinstance(v, (Cell, Sub)):
            c = self.get(v)
            if isinstance(c, Term): return self.to_j(c)
            if isinstance(v, Cell) and v.kind == "dict":
                return ToJ(self.as_term(c, Map(STR, J)))
            if isinstance(v, Cell) and v.kind == "list":
                return ToJ(self.as_term(c, Seq(J)))
        raise Unsupported("to_j %r" % (v,))

    # view of something read out of a container term
    def view(self, t, parent=None, path=None):
        if not isinstance(t, Term): return t
        s = t.sort
        if isinstance(s, tuple) and s[0] in ("Seq", "Map", "Set") and parent is not None:
            return Sub(parent, path, s)
        if isinstance(s, tuple) and s[0] == "Tup":
            return tuple(self.view(Proj(i, t)) for i in range(len(s[1])))
        return t

    def unopt(self, v):
        """resolve an optional: fork on None"""
        while True:
            if isinstance(v, Sub) and isinstance(v.sort, tuple) and v.sort[0] == "Opt":
                t = self.get(v)
            elif isinstance(v, Term) and isinstance(v.sort, tuple) and v.sort[0] == "Opt":
                t = v
            else: return v
            if self.branch(IsSome(t)): v = self.view(TheSome(t))
            else: return NONE_T

    # ------------------------------------------------------------ python protocol helpers
    def truth(self, v):
        """python truth value as a Bool term or bool"""
        v = self.unopt(v)
        if isinstance(v, bool): return v
        if isinstance(v, Term):
            s = v.sort
            if s == BOOL: return v
            if s == NONE: return False
            if s == STR: return Not(Eq(v, S("")))
            if s == INT: return Not(Eq(v, I(0)))
            if isinstance(s, tuple):
                if s[0] == "Seq": return NonEmpty(v)
                if s[0] == "Set": return NonEmpty(set_elems(v))
                if s[0] == "Map": return NonEmpty(SKeys(v))
                if s[0] == "Rec":
                    ri = RECS_BY_NAME[s[1]].pycls
                    if not hasattr(ri, "__len__") and not hasattr(ri, "__bool__"): return True
                if s[0] == "Tup": return bool(s[1])
            if s == J:
                return self.j_truth(v)
            raise Unsupported("truth of %s" % (s,))
        if isinstance(v, tuple): return bool(v)
        if isinstance(v, (Cell, Sub)):
            c = self.get(v)
            return bool(c) if isinstance(c, tuple) else self.truth(c)
        if isinstance(v, (Match, Obj, Closure, Bound, type)):
            if isinstance(v, Obj) and (hasattr(v.cls, "__bool__") or hasattr(v.cls, "__len__")): raise Unsupported("__bool__")
            return True
        if isinstance(v, Raw): return bool(v.v)
        raise Unsupported("truth of %r" % (v,))

    def j_truth(self, v):
        if self.branch(JIs("null", v)): return False
        if self.branch(JIs("bool", v)): return JAs("bool", v)
        if self.branch(JIs("str", v)): return Not(Eq(JAs("str", v), S("")))
        if self.branch(JIs("list", v)): return NonEmpty(JAs("list", v))
        if self.branch(JIs("dict", v)): return NonEmpty(SKeys(JAs("dict", v)))
        if self.branch(JIs("int", v)): return Not(Eq(JAs("int", v), I(0)))
        raise Unsupported("truth of a number")

    def test(self, v): return self.branch(self.truth(v))

    def py_type(self, v):
        """the python class of a value (None if it depends on the path)"""
        if isinstance(v, Term):
            s = v.sort
            if s in SORT_CLS: return SORT_CLS[s]
            if isinstance(s, tuple):
                if s[0] == "Rec": return RECS_BY_NAME[s[1]].pycls
                return {"Seq": list, "Map": dict, "Set": set, "Tup": tuple}.get(s[0])
            return None
        if isinstance(v, tuple): return tuple
        if isinstance(v, Cell): return {"list": list, "dict": dict, "set": set}[v.kind] if v.default is None else collections.defaultdict
        if isinstance(v, Sub): return {"Seq": list, "Map": dict, "Set": set}.get(v.sort[0])
        if isinstance(v, Obj): return v.cls
        if isinstance(v, Raw): return type(v.v)
        if isinstance(v, (Closure,)): return types.FunctionType
        if isinstance(v, Iter): return types.GeneratorType
        if isinstance(v, bool): return bool
        return type(v)

    def eq(self, a, b):
        """python == as Bool term / bool"""
        a, b = self.unopt_eq(a), self.unopt_eq(b)
        if a is b and not isinstance(a, Raw): return True
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and isinstance(b, Opaque) and a.kind == b.kind == "Path": return VEq(a.term, b.term)
            raise Unsupported("comparison of %r and %r" % (a, b))
        if isinstance(a, (Cell, Sub)) or isinstance(b, (Cell, Sub)) or isinstance(a, tuple) or isinstance(b, tuple):
            ca, cb = self.get(a), self.get(b)
            ka, kb = self.kindname(a), self.kindname(b)
            if ka == "J" or kb == "J":
                return self.eq_j(a, b)
            if ka == "Opt" or kb == "Opt":
                return self.eq(self.unopt(a), self.unopt(b))
            if ka != kb: return False
            if isinstance(ca, tuple) and isinstance(cb, tuple) and ka in ("Tup", "Seq"):
                if len(ca) != len(cb): return False
                return self.conj([self.eq(x, y) for x, y in zip(ca, cb)])
            s = self.complete(self.unify(self.sort_of(a), self.sort_of(b)))
            return VEq(self.as_term(a, s), self.as_term(b, s))
        if isinstance(a, Term) and isinstance(b, Term):
            if a.sort != b.sort and J in (a.sort, b.sort):
                return self.eq_j(a, b)
            if a.sort != b.sort and any(isinstance(x.sort, tuple) and x.sort[0] == "Opt" for x in (a, b)):
                return self.eq(self.unopt(a), self.unopt(b))
            return VEq(a, b)
        if isinstance(a, Raw) or isinstance(b, Raw):
            av, bv = self.pyval(a), self.pyval(b)
            if av is not _MISSING and bv is not _MISSING: return bool(av == bv)
            return False
        if isinstance(a, Obj) and isinstance(b, Obj):
            return self.obj_eq(a, b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            return False
        if isinstance(a, (type, types.GenericAlias)) or isinstance(b, (type, types.GenericAlias)):
            if isinstance(a, Term) and a.sort == U("type") or isinstance(b, Term) and b.sort == U("type"):
                return Eq(self.as_term(a), self.as_term(b))
            return a == b if not isinstance(a, Term) and not isinstance(b, Term) else False
        raise Unsupported("== between %r and %r" % (a, b))

    def eq_j(self, a, b):
        """equality with a JSON value on one side, kept as a case split on its kind"""
        if isinstance(a, Term) and a.sort == J: j, o = a, b
        else: j, o = b, a
        if isinstance(o, Term) and o.sort == J: return Eq(a, b)
        if isinstance(o, Term) and o.sort in (STR, BOOL, NONE):
            k = {STR: "str", BOOL: "bool", NONE: "null"}[o.sort]
            if o.sort == BOOL:
                # True == 1 in python
                return Or(And(JIs("bool", j), Eq(JAs("bool", j), o)), And(JIs("int", j), Eq(JAs("int", j), Ite(o, I(1), I(0)))),
                          And(JIs("float", j), StrOp("float_is", ToJ(o), j, sort=BOOL)))
            if k == "null": return JIs("null", j)
            return And(JIs("str", j), Eq(JAs("str", j), o))
        return Eq(self.to_j(a), self.to_j(b))

    def obj_eq(self, a, b):
        if a.cls is not b.cls:
            return False
        if dataclasses.is_dataclass(a.cls) and a.cls.__eq__ is not object.__eq__:
            return self.conj([self.eq(a.d[f.name], b.d[f.name]) for f in dataclasses.fields(a.cls)])
        return a is b

    def unopt_eq(self, v):
        if isinstance(v, Sub) and v.sort[0] == "Opt": return self.get(v)
        return v

    def conj(self, xs):
        if any(x is False for x in xs): return False
        ts = [x if isinstance(x, Term) else B(x) for x in xs]
        return And(*ts)

    def kindname(self, v):
        if isinstance(v, Term):
            if isinstance(v.sort, tuple):
                return v.sort[0]
            return v.sort
        if isinstance(v, Cell): return {"list": "Seq", "dict": "Map", "set": "Set"}[v.kind]
        if isinstance(v, Sub): return v.sort[0]
        if isinstance(v, tuple): return "Tup"
        if isinstance(v, Iter): return "Iter"
        return type(v).__name__

    def pyval(self, v):
        """concrete python value of a constant, or _MISSING"""
        if isinstance(v, Raw): return v.v
        if isinstance(v, Term) and v.op == "Const": return v.data[1]
        if isinstance(v, bool): return v
        if isinstance(v, tuple):
            r = [self.pyval(x) for x in v]
            return _MISSING if any(x is _MISSING for x in r) else tuple(r)
        return _MISSING

    def contains(self, c, v):
        """v in c, as Bool term / bool"""
        c = self.unopt(c)
        if isinstance(c, DictView):
            c = c.m if c.what == "keys" else Iter(c.seq(self))
        if isinstance(c, Term) and c.sort == J: c = self.j_container(c)
        if isinstance(c, (tuple,)) or (isinstance(c, (Cell, Iter)) and isinstance(self.get(c), tuple)):
            items = self.get(c)
            if isinstance(c, Cell) and c.kind == "dict": items = tuple(k for k, _ in items)
            rs = [self.eq(v, x) for x in items]
            if any(r is True for r in rs): return True
            return Or(*[r if isinstance(r, Term) else B(r) for r in rs])
        t = self.get(c)
        if isinstance(t, Term):
            s = t.sort
            if s == STR:
                return StrOp("contains", t, self.as_term(v), sort=BOOL)
            if s[0] == "Tup":
                rs = [self.eq(v, Proj(i, t)) for i in range(len(s[1]))]
                return Or(*[r if isinstance(r, Term) else B(r) for r in rs])
            seq = t if s[0] == "Seq" else set_elems(t) if s[0] == "Set" else None
            es = s[1]
            if s[0] == "Map":
                v = self.unopt_if(v, es)
                if v is None: return False
                return MHas(t, self.as_term(v, es))
            vs = self.sort_of(v)
            if vs != es:
                if vs == NONE and es[0] != "Opt": return False
                if isinstance(es, tuple) and es[0] == "Opt" or es == J:
                    v = self.as_term(v, es)
                elif vs == J:
                    k = {STR: "str"}.get(es)
                    if not k: raise Unsupported("J in %s" % (es,))
                    if not self.branch(JIs(k, v)): return False
                    v = JAs(k, v)
                elif isinstance(vs, tuple) and vs[0] == "Opt":
                    v = self.unopt(v)
                    if v is NONE_T: return False
                else:
                    try: v = self.as_term(v, es)
                    except Unsupported: return False
            v = self.as_term(v, es)
            if _structural(es): return SMem(seq, v)
            x = fresh("m", es)
            return Ex(x, None, seq, VEq(x, v))
        raise Unsupported("in %r" % (c,))

    def unopt_if(self, v, es):
        if isinstance(v, Term) and isinstance(v.sort, tuple) and v.sort[0] == "Opt" and not (isinstance(es, tuple) and es[0] == "Opt"):
            v = self.unopt(v)
            if v is NONE_T: return None
        if isinstance(v, Term) and v.sort == J and es == STR:
            if not self.branch(JIs("str", v)): return None
            return JAs("str", v)
        return v

    def j_container(self, v):
        """a JSON value used as a container"""
        if self.branch(JIs("dict", v)): return JAs("dict", v)
        if self.branch(JIs("list", v)): return JAs("list", v)
        if self.branch(JIs("str", v)): return JAs("str", v)
        raise PyRaise(TypeError, where="json container")

    def seq_of(self, v):
        """iterate: tuple of values (known length) or Seq term"""
        v = self.unopt(v)
        if isinstance(v, tuple): return v
        if isinstance(v, Term) and v.sort == J: v = self.j_container(v)
        if isinstance(v, Iter):
            s = v.d["seq"]
            self.write(v, "seq", ())      # exhausted
            return s
        if isinstance(v, (Cell, Sub)):
            c = self.get(v)
            if isinstance(c, tuple):
                return tuple(k for k, _ in c) if v.kind == "dict" else c
            return self.seq_of(c)
        if isinstance(v, Term):
            s = v.sort
            if s == NONE: raise PyRaise(TypeError, where="iterate None")
            if isinstance(s, tuple):
                if s[0] == "Seq":
                    if v.op == "SLit": return tuple(self.view(a) for a in v.args)
                    return v
                if s[0] == "Map":
                    return self.seq_of(SKeys(v))
                if s[0] == "Set": return self.seq_of(SOfSet(v))
                if s[0] == "Tup": return tuple(self.view(Proj(i, v)) for i in range(len(s[1])))
            if s == STR and is_const(v): return tuple(S(c) for c in cval(v))
            raise Unsupported("iterate %s" % (s,))
        if isinstance(v, type) and issubclass(v, enum.Enum): return tuple(self.lift(x) for x in v)
        if isinstance(v, Raw):
            try: return tuple(self.lift(x) for x in v.v)
            except TypeError: raise PyRaise(TypeError)
        if isinstance(v, DictView): return v.seq(self)
        if isinstance(v, Groups): raise Unsupported("groupby iterated")
        if isinstance(v, Obj) and hasattr(v.cls, "__iter__"):
            return self.seq_of(self.call_method(v, "__iter__", [], {}))
        raise Unsupported("iterate %r" % (v,))

    def seq_term(self, s, es=None):
        if isinstance(s, Term): return s
        return self.as_term(s, Seq(es)) if es is not None else self.as_term(Iter(s))

    def new_list(self, s):
        return Cell("list", s)

    def length(self, v):
        v = self.unopt(v)
        if isinstance(v, Term) and v.sort == J: v = self.j_container(v)
        if isinstance(v, tuple): return I(len(v))
        if isinstance(v, DictView): v = v.m
        c = self.get(v)
        if isinstance(c, tuple):
            if isinstance(v, Cell) and v.kind in ("dict", "set") and v.kind == "set":
                return SLen(SOfSet(self.as_term(v)))
            return I(len(c))
        if isinstance(c, Term):
            s = c.sort
            if s == STR: return StrOp("len", c, sort=INT)
            if s[0] == "Seq": return SLen(c)
            if s[0] == "Map": return SLen(SKeys(c))
            if s[0] == "Set": return SLen(SOfSet(c))
            if s[0] == "Tup": return I(len(s[1]))
        raise Unsupported("len(%r)" % (v,))

    # ------------------------------------------------------------ names
    def lookup(self, env, name):
        e = env
        while e is not None:
            if name in e.d:
                v = e.d[name]
                if isinstance(v, Stale): raise Unsupported("value of %s after the loop: %s" % (name, v.why))
                return v
            e = e.parent
        g = env.glob
        key = (g.get("__name__"), name)
        if key in self.global_over: return self.global_over[key]
        if name in g: return self.lift_global(g[name])
        if hasattr(builtins, name): return getattr(builtins, name)
        raise PyRaise(NameError, where=name)

    def lift_global(self, v): return self.lift(v)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for st in stmts: self.exec(st, env)

    def exec(self, st, env):
        self.steps += 1
        if self.steps > 3000000: raise Unsupported("step limit")
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None: raise Unsupported("statement %s" % type(st).__name__)
        return m(st, env)

    def x_Pass(self, st, env): pass
    def x_Import(self, st, env):
        for a in st.names:
            mod = __import__(a.name)
            if a.asname:
                for p in a.name.split(".")[1:]: mod = getattr(mod, p)
            self.write(env, a.asname or a.name.split(".")[0], mod)
    def x_ImportFrom(self, st, env):
        if st.level: raise Unsupported("relative import in function")
        import importlib
        mod = importlib.import_module(st.module)
        for a in st.names: self.write(env, a.asname or a.name, self.lift(getattr(mod, a.name)))
    def x_Global(self, st, env): raise Unsupported("global statement")
    def x_Nonlocal(self, st, env): env.nonlocals |= set(st.names)

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant): return
        if self.is_logging(st.value, env): return
        self.ev(st.value, env)

    def is_logging(self, e, env):
        if not (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute)): return False
        b = e.func.value
        if isinstance(b, ast.Name):
            try: v = self.lookup(env, b.id)
            except (Signal, Unsupported): return False
            import logging, warnings
            if isinstance(v, Raw) and isinstance(v.v, logging.Logger): return True
            if v is logging or v is warnings: return True
        return False

    def x_Assert(self, st, env):
        if not self.test(self.ev(st.test, env)): raise PyRaise(AssertionError, where="line %d" % st.lineno)

    def x_Return(self, st, env):
        raise Ret(self.ev(st.value, env) if st.value else NONE_T)

    def x_Break(self, st, env): raise Brk()
    def x_Continue(self, st, env): raise Cont()

    def x_Raise(self, st, env):
        if st.exc is None:
            for h in reversed(self.active):
                if h is not None: raise PyRaise(h.cls, h.val, h.where)
            raise Unsupported("bare raise")
        e = st.exc
        where = "%s:%d" % (env.fname, st.lineno)
        if isinstance(e, ast.Call):
            try: c = self.ev(e.func, env)
            except PyRaise: raise
            if isinstance(c, type) and issubclass(c, BaseException): raise PyRaise(c, None, where)
            v = self.ev(e, env)
        else: v = self.ev(e, env)
        if isinstance(v, type) and issubclass(v, BaseException): raise PyRaise(v, None, where)
        if isinstance(v, ExcVal): raise PyRaise(v.cls, None, where)
        if isinstance(v, Obj) and issubclass(v.cls, BaseException): raise PyRaise(v.cls, v, where)
        raise Unsupported("raise %r" % (v,))

    def x_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets: self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None: self.assign(st.target, self.ev(st.value, env), env)

    def x_AugAssign(self, st, env):
        t = st.target
        cur = self.ev(_load(t), env)
        rhs = self.ev(st.value, env)
        if isinstance(cur, (Cell, Sub)) and isinstance(st.op, (ast.Add, ast.BitOr)):
            k = self.kindname(cur)
            if k == "Seq" and isinstance(st.op, ast.Add): self.call_method(cur, "extend", [rhs], {}); return
            if k in ("Set", "Map") and isinstance(st.op, ast.BitOr): self.call_method(cur, "update", [rhs], {}); return
        self.assign(t, self.binop(st.op, cur, rhs), env)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.write(env, t.id, Stale("deleted"))
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
            else: raise Unsupported("del")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.nonlocals:
                e = env.parent
                while e is not None and t.id not in e.d: e = e.parent
            self.write(e, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            s = self.seq_of(v)
            if isinstance(s, Term):
                n = len(t.elts)
                if any(isinstance(x, ast.Starred) for x in t.elts): raise Unsupported("starred unpack")
                if not self.branch(Eq(SLen(s), I(n))): raise PyRaise(ValueError, where="unpack")
                s = tuple(self.view(SNth(s, I(i))) for i in range(n))
            st = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                k = st[0]; after = len(t.elts) - k - 1
                if len(s) < len(t.elts) - 1: raise PyRaise(ValueError, where="unpack")
                for x, y in zip(t.elts[:k], s[:k]): self.assign(x, y, env)
                self.assign(t.elts[k].value, Cell("list", tuple(s[k:len(s) - after])), env)
                for x, y in zip(t.elts[k + 1:], s[len(s) - after:]): self.assign(x, y, env)
                return
            if len(s) != len(t.elts): raise PyRaise(ValueError, where="unpack")
            for x, y in zip(t.elts, s): self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        else: raise Unsupported("assignment target")

    def x_If(self, st, env):
        self.exec_block(st.body if self.test(self.ev(st.test, env)) else st.orelse, env)

    def x_FunctionDef(self, st, env):
        fn = self.make_closure(st, env)
        for d in reversed(st.decorator_list):
            dv = self.ev(d, env)
            if dv in (staticmethod,): continue
            if dv is functools.wraps or (isinstance(dv, functools.partial)): continue
            fn = self.call(dv, [fn], {})
        self.write(env, st.name, fn)

    def make_closure(self, node, env):
        a = node.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return Closure(node, env, env.glob, getattr(node, "name", "<lambda>"), defaults, kwd)

    def x_ClassDef(self, st, env): raise Unsupported("local class")

    def x_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyRaise as e:
                for h in st.handlers:
                    if self.handler_matches(h, e, env):
                        if h.name: self.write(env, h.name, e.val if e.val is not None else ExcVal(e.cls))
                        self.active.append(e)
                        try: self.exec_block(h.body, env)
                        finally: self.active.pop()
                        break
                else: raise
            else:
                self.exec_block(st.orelse, env)
        except (PyRaise, Ret, Brk, Cont):
            if st.finalbody: self.exec_block(st.finalbody, env)
            raise
        else:
            if st.finalbody: self.exec_block(st.finalbody, env)

    def handler_matches(self, h, e, env):
        if h.type is None: return True
        v = self.ev(h.type, env)
        cs = v if isinstance(v, tuple) else (v,)
        return any(isinstance(c, type) and issubclass(e.cls, c) for c in cs)

    def x_While(self, st, env):
        n = 0
        while True:
            c = self.truth(self.ev(st.test, env))
            if isinstance(c, Term) and self.known(c) is None: raise Unsupported("while on a symbolic condition")
            if not self.branch(c): break
            n += 1
            if n > 200: raise Unsupported("while bound")
            try: self.exec_block(st.body, env)
            except Brk: return
            except Cont: pass
        self.exec_block(st.orelse, env)

    # ------------------------------------------------------------ with
    def x_With(self, st, env): self.with_items(st.items, st.body, env)

    def with_items(self, items, body, env):
        if not items: return self.exec_block(body, env)
        it, rest = items[0], items[1:]
        cm = self.ev(it.context_expr, env)
        def inner(val):
            if it.optional_vars is not None: self.assign(it.optional_vars, val, env)
            self.with_items(rest, body, env)
        self.run_with(cm, inner)

    def run_with(self, cm, inner):
        if isinstance(cm, Suppress):
            try: inner(NONE_T)
            except PyRaise as e:
                if not any(issubclass(e.cls, c) for c in cm.classes): raise
            return
        if isinstance(cm, CMCall):
            self.run_cm(cm, inner); return
        if isinstance(cm, Obj) and hasattr(cm.cls, "__enter__"):
            v = self.call_method(cm, "__enter__", [], {})
            try: inner(v)
            except PyRaise as e:
                r = self.call_method(cm, "__exit__", [e.cls, ExcVal(e.cls), NONE_T], {})
                if self.test(r): return
                raise
            except (Ret, Brk, Cont):
                self.call_method(cm, "__exit__", [NONE_T] * 3, {}); raise
            self.call_method(cm, "__exit__", [NONE_T] * 3, {})
            return
        if isinstance(cm, LibCM):
            v = cm.enter(self)
            try: inner(v)
            except (PyRaise, Ret, Brk, Cont):
                cm.exit(self); raise
            cm.exit(self)
            return
        raise Unsupported("with %r" % (cm,))

    def run_cm(self, cm, inner):
        """@contextmanager generator: its body runs around the with-block"""
        state = {"n": 0, "sig": None}
        def on_yield(v):
            state["n"] += 1
            if state["n"] > 1: raise PyRaise(RuntimeError, where="generator didn't stop")
            try: inner(v)
            except (Ret, Brk, Cont) as s: state["sig"] = s
            return NONE_T
        self.yield_stack.append(on_yield)
        try:
            self.invoke_body(cm.fn, cm.args, cm.kwargs, generator=False)
        finally: self.yield_stack.pop()
        if not state["n"]: raise PyRaise(RuntimeError, where="generator didn't yield")
        if state["sig"] is not None: raise state["sig"]

    # ------------------------------------------------------------ for
    def x_For(self, st, env):
        src = self.ev(st.iter, env)
        def body(v):
            self.assign(st.target, v, env)
            self.exec_block(st.body, env)
        broke = self.for_each(src, body, names=_target_names(st.target), env=env)
        if not broke: self.exec_block(st.orelse, env)

    def for_each(self, src, body, names=(), env=None):
        """returns True if left by break"""
        if isinstance(src, Groups): return self.for_groups(src, body, env)
        s = src if isinstance(src, (tuple,)) else self.seq_of(src)
        root = src.m if isinstance(src, DictView) else src
        while isinstance(root, Sub): root = root.parent
        def watched(v):
            # the container being iterated must not change under the loop
            if not isinstance(root, Cell): return body(v)
            before = root.d["val"]
            try: return body(v)
            finally:
                if root.d["val"] is not before: raise Unsupported("container modified while it is iterated")
        if isinstance(s, tuple):
            for v in s:
                try: watched(v)
                except Brk: return True
                except Cont: pass
            return False
        from .loops import run_loop
        return run_loop(self, s, watched, names, env)

    def for_groups(self, g, body, env):
        """the groups of itertools.groupby, when equal keys stand next to each other"""
        from .lower import contiguous
        if not contiguous(self.pc, g.src, g.x, g.key): raise Unsupported("groupby: equal keys may be apart")
        keys = smap(g.src, lambda v: subst(g.key, {g.x: v}))
        k = fresh("k", g.key.sort)
        def step(kv):
            kt = self.as_term(kv, g.key.sort)
            return body((kv, Iter(GroupOf(g.x, g.src, g.key, kt))))
        from .loops import run_loop
        return run_loop(self, SDedup(k, keys, k), step, (), env)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        if e.value is Ellipsis: return Raw(e.value)
        return self.lift(e.value)

    def e_Name(self, e, env): return self.lookup(env, e.id)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        en = env
        while en.fname == "<comp>" and en.parent is not None: en = en.parent
        self.assign(e.target, v, en)
        return v

    def e_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                s = self.seq_of(self.ev(x.value, env))
                if isinstance(s, Term):
                    if len(e.elts) == 1: return s       # (*xs,)
                    out.append(StarArg(s))
                else: out.extend(s)
            else: out.append(self.ev(x, env))
        if any(isinstance(x, StarArg) for x in out):
            es = self.complete(self.unify_all([x.term.sort[1] if isinstance(x, StarArg) else self.sort_of(x) for x in out]))
            return SCat(es, *[self.as_term(x.term, Seq(es)) if isinstance(x, StarArg) else SLit(es, self.as_term(x, es)) for x in out])
        return tuple(out)

    def e_List(self, e, env):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            c = Cell("list", ())
            for x in e.elts:
                if isinstance(x, ast.Starred): self.call_method(c, "extend", [self.ev(x.value, env)], {})
                else: self.call_method(c, "append", [self.ev(x, env)], {})
            return c
        return Cell("list", tuple(self.ev(x, env) for x in e.elts))

    def e_Set(self, e, env):
        c = Cell("set", ())
        for x in e.elts:
            if isinstance(x, ast.Starred): self.call_method(c, "update", [self.ev(x.value, env)], {})
            else: self.call_method(c, "add", [self.ev(x, env)], {})
        return c

    def e_Dict(self, e, env):
        c = Cell("dict", ())
        for k, v in zip(e.keys, e.values):
            if k is None: self.call_method(c, "update", [self.ev(v, env)], {})
            else:
                kk = self.ev(k, env)
                self.setitem(c, kk, self.ev(v, env))
        return c

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.test(self.ev(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for k, x in enumerate(e.values):
            v = self.ev(x, env)
            if k == len(e.values) - 1: return v
            t = self.test(v)
            if isand and not t or not isand and t:
                # python returns the operand itself
                if isinstance(v, Term) and v.sort == BOOL: return B(t)
                return v
        return v

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return B(not t) if isinstance(t, bool) else Not(t)
        if isinstance(e.op, ast.USub):
            t = self.as_term(v)
            if t.sort == INT: return Neg(t)
        raise Unsupported("unary operator")

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        a, b = self.unopt(a), self.unopt(b)
        if isinstance(a, Opaque):
            from . import deps
            return deps.binop(self, op, a, b)
        ka, kb = self.kindname(a), self.kindname(b)
        if isinstance(op, ast.Add):
            if ka == kb == STR: return StrCat(a, b)
            if ka in (INT, BOOL) and kb in (INT, BOOL): return Add(self.as_term(a, INT), self.as_term(b, INT))
            if ka == kb == "Seq":
                ca, cb = self.get(a), self.get(b)
                if isinstance(ca, tuple) and isinstance(cb, tuple): return Cell("list", ca + cb)
                s = self.complete(self.unify(self.sort_of(a), self.sort_of(b)))
                return Cell("list", SCat(s[1], self.as_term(a, s), self.as_term(b, s)))
            if isinstance(a, tuple) and isinstance(b, tuple): return a + b
        if isinstance(op, ast.Sub):
            if ka == kb == INT: return ir.Sub(a, b)
            if ka in ("Set", "DictView") and kb in ("Set", "DictView"):
                return self.call_method(self.as_set(a), "difference", [b], {})
        if isinstance(op, ast.BitOr):
            if ka in ("Set", "DictView"): return self.call_method(self.as_set(a), "union", [b], {})
            if ka == "Map":
                c = self.call_method(a, "copy", [], {})
                self.call_method(c, "update", [b], {})
                return c
            if isinstance(a, type) or isinstance(b, type): return Raw(("union", a, b))
        if isinstance(op, ast.BitAnd) and ka in ("Set", "DictView"):
            return self.call_method(self.as_set(a), "intersection", [b], {})
        if isinstance(op, ast.BitXor) and ka in ("Set", "DictView"):
            return self.call_method(self.as_set(a), "symmetric_difference", [b], {})
        if isinstance(op, ast.Mult):
            if ka == kb == INT: return Mul(a, b)
            if ka == "Seq" and kb == INT:
                c = self.get(a)
                if is_const(b) and isinstance(c, tuple): return Cell("list", c * cval(b))
                if isinstance(c, tuple) and len(c) == 1:
                    i = fresh("i", INT)
                    v = self.as_term(c[0])
                    return Cell("list", SComp(i, None, SRange(b), SLit(v.sort, v)))
            if ka == STR and kb == INT and is_const(a) and is_const(b): return S(cval(a) * cval(b))
        if isinstance(op, ast.Div) and isinstance(a, PathVal): return a.div(self, b)
        if isinstance(op, ast.Mod) and ka == STR: return StrOp("mod", a, sort=STR)
        if isinstance(op, ast.Mod) and ka == INT: return mk("Mod", (a, b), INT)
        raise Unsupported("operator %s on %s and %s" % (type(op).__name__, ka, kb))

    def as_set(self, v):
        if isinstance(v, DictView): return Cell("set", SetOf(self.seq_term(v.seq(self))))
        return v

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            c = self.compare(op, left, right)
            last = r is e.comparators[-1]
            if last and res is None:
                return c if isinstance(c, Term) else B(c)
            if last: return c if isinstance(c, Term) else B(c)
            if not self.branch(c): return FALSE
            res = True
            left = right

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return r if isinstance(op, ast.Is) else (Not(r) if isinstance(r, Term) else not r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b)
            return r if isinstance(op, ast.Eq) else (Not(r) if isinstance(r, Term) else not r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else (Not(r) if isinstance(r, Term) else not r)
        a, b = self.unopt(a), self.unopt(b)
        ka, kb = self.kindname(a), self.kindname(b)
        if ka in ("Set", "DictView") and kb in ("Set", "DictView"):
            a, b = self.as_term(self.as_set(a)), self.as_term(self.as_set(b))
            s = self.unify(a.sort, b.sort)
            a, b = self.coerce(a, s), self.coerce(b, s)
            if isinstance(op, ast.LtE): return SetLe(a, b)
            if isinstance(op, ast.GtE): return SetLe(b, a)
            if isinstance(op, ast.Lt): return And(SetLe(a, b), Not(SetLe(b, a)))
            if isinstance(op, ast.Gt): return And(SetLe(b, a), Not(SetLe(a, b)))
        a, b = self.as_term(a), self.as_term(b)
        if a.sort != b.sort:
            if {a.sort, b.sort} <= {INT, BOOL}: a, b = self.coerce(a, INT), self.coerce(b, INT)
            else: raise Unsupported("ordering %s %s" % (a.sort, b.sort))
        if isinstance(a.sort, tuple) and a.sort[0] == "Rec": a, b = natkey(a), natkey(b)
        if isinstance(op, ast.Lt): return Lt(a, b)
        if isinstance(op, ast.Gt): return Lt(b, a)
        if isinstance(op, ast.LtE): return Not(Lt(b, a))
        if isinstance(op, ast.GtE): return Not(Lt(a, b))
        raise Unsupported("comparison")

    def is_(self, a, b):
        if isinstance(a, Sub) and a.sort[0] == "Opt": a = self.get(a)
        if isinstance(b, Sub) and b.sort[0] == "Opt": b = self.get(b)
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Term) and y.sort == NONE:
                if isinstance(x, Term):
                    if x.sort == NONE: return True
                    if isinstance(x.sort, tuple) and x.sort[0] == "Opt": return Not(IsSome(x))
                    if x.sort == J: return JIs("null", x)
                return False
            if isinstance(y, Term) and y.sort == BOOL and y.op == "Const":
                if isinstance(x, Term):
                    if x.sort == BOOL: return Eq(x, y)
                    if x.sort == J: return And(JIs("bool", x), Eq(JAs("bool", x), y))
                    if isinstance(x.sort, tuple) and x.sort[0] == "Opt" and x.sort[1] == BOOL:
                        return And(IsSome(x), Eq(TheSome(x), y))
                return False
        if isinstance(a, Term) and isinstance(b, Term):
            if a is b: return True
            if a.sort == BOOL and b.sort == BOOL: return Eq(a, b)
            if a.sort == U("type") or b.sort == U("type"): return Eq(a, b)
            if a.sort != b.sort: return False
            raise Unsupported("identity of values")
        if isinstance(a, Term) and a.sort == U("type") and isinstance(b, (type, types.GenericAlias)): return Eq(a, self.as_term(b))
        if isinstance(b, Term) and b.sort == U("type") and isinstance(a, (type, types.GenericAlias)): return Eq(b, self.as_term(a))
        if isinstance(a, (type, types.GenericAlias)) and isinstance(b, (type, types.GenericAlias)): return a is b
        if isinstance(a, Raw) and isinstance(b, Raw): return a.v is b.v
        if type(a) is not type(b): return False
        return a is b

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(S(v.value))
            else:
                if v.format_spec is not None: raise Unsupported("format spec")
                x = self.ev(v.value, env)
                parts.append(self.to_repr(x) if v.conversion == 114 else self.to_str(x))
        return StrCat(*parts)

    def to_str(self, v):
        v = self.unopt(v)
        if isinstance(v, Term):
            if v.sort == STR: return v
            if is_const(v) and v.sort in (INT, BOOL, NONE): return S(str(cval(v)))
            if v.sort == J and self.known(JIs("str", v)): return JAs("str", v)
            return StrOp("str", v, sort=STR)
        if isinstance(v, Raw): return S(str(v.v))
        if isinstance(v, PathVal): return v.term
        if isinstance(v, Obj) and "__str__" in vars(v.cls): return self.call_method(v, "__str__", [], {})
        try: return StrOp("str", self.as_term(v), sort=STR)
        except Unsupported: return StrOp("str", fresh("obj", U("raw")), sort=STR)

    def to_repr(self, v):
        try: return StrOp("repr", self.as_term(v), sort=STR)
        except Unsupported: return StrOp("repr", fresh("obj", U("raw")), sort=STR)

    def e_Lambda(self, e, env): return self.make_closure(e, env)

    def e_Attribute(self, e, env): return self.getattr(self.ev(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        v = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, env) if e.slice.lower else None
            hi = self.ev(e.slice.upper, env) if e.slice.upper else None
            if e.slice.step is not None: raise Unsupported("slice step")
            return self.slice(v, lo, hi)
        k = self.ev(e.slice, env)
        return self.getitem(v, k)

    def e_Starred(self, e, env): raise Unsupported("starred")

    # yield
    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value else NONE_T
        if not self.yield_stack: raise Unsupported("yield outside generator")
        return self.do_yield(v)

    def do_yield(self, v):
        h = self.yield_stack[-1]
        if callable(h):
            # while the with-body runs, yields inside it belong to the enclosing generator
            self.yield_stack.pop()
            try: return h(v)
            finally: self.yield_stack.append(h)
        self.call_method(h, "append", [v], {})
        return NONE_T

    def e_YieldFrom(self, e, env):
        s = self.ev(e.value, env)
        h = self.yield_stack[-1]
        if callable(h): raise Unsupported("yield from in contextmanager")
        self.call_method(h, "extend", [s], {})
        return NONE_T

    # comprehensions
    def e_ListComp(self, e, env): return self.comp_cell(e, env, lambda en: self.ev(e.elt, en))
    def e_GeneratorExp(self, e, env): return Iter(self.comp(e, env, lambda en: self.ev(e.elt, en)))
    def e_SetComp(self, e, env):
        s = self.comp(e, env, lambda en: self.ev(e.elt, en))
        return self.make_set(s)
    def e_DictComp(self, e, env):
        out = self.comp_cell(e, env, lambda en: (self.ev(e.key, en), self.ev(e.value, en)))
        d = self.make_dict(out.d["val"])
        if isinstance(out.d["val"], Term) and not out.d.get("borrows"): d.d.pop("borrows", None)
        return d

    def make_set(self, s):
        if isinstance(s, tuple):
            c = Cell("set", ())
            for v in s: self.call_method(c, "add", [v], {})
            return c
        return Cell("set", SetOf(s))

    def make_dict(self, s):
        """from a sequence of pairs"""
        if isinstance(s, tuple):
            c = Cell("dict", ())
            for p in s:
                kv = self.seq_of(p)
                if isinstance(kv, Term) or len(kv) != 2: raise Unsupported("dict from non-pairs")
                self.setitem(c, kv[0], kv[1])
            return c
        if not (isinstance(s.sort[1], tuple) and s.sort[1][0] == "Tup" and len(s.sort[1][1]) == 2):
            raise Unsupported("dict from %s" % (s.sort,))
        return Cell("dict", MOf(s))

    def comp(self, e, env, elt):
        """value sequence of a comprehension: tuple of values or Seq term"""
        return self.comp_cell(e, env, elt).d["val"]

    def comp_cell(self, e, env, elt):
        cenv = Env(env, env.glob, "<comp>")
        out = Cell("list", ())
        def level(k):
            if k == len(e.generators):
                self.call_method(out, "append", [elt(cenv)], {})
                return
            g = e.generators[k]
            if g.is_async: raise Unsupported("async")
            src = self.ev(g.iter, env if k == 0 else cenv)
            def body(v):
                self.assign(g.target, v, cenv)
                for c in g.ifs:
                    if not self.test(self.ev(c, cenv)): return
                level(k + 1)
            self.for_each(src, body, env=cenv)
        level(0)
        return out

    # ------------------------------------------------------------ calls
    def e_Call(self, e, env):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.make_super(env)
        if self.is_logging(e, env): return NONE_T
        # L.extend(<generator expression>) : the generator observes L while it grows
        if isinstance(e.func, ast.Attribute) and e.func.attr == "extend" and len(e.args) == 1 and \
           isinstance(e.args[0], ast.GeneratorExp) and not e.keywords:
            recv = self.ev(e.func.value, env)
            if isinstance(recv, (Cell, Sub)) and self.kindname(recv) == "Seq":
                self.extend_gen(recv, e.args[0], env)
                return NONE_T
        fn = self.ev(e.func, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                s = self.seq_of(self.ev(a.value, env))
                if isinstance(s, Term): args.append(StarArg(s))
                else: args.extend(s)
            else: args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                c = self.get(d) if isinstance(d, (Cell, Sub)) else d
                from . import lib
                if (items := lib.rec_items(self, c)) is not None: c = items
                elif (items := lib.literal_items(c)) is not None: c = items
                if not isinstance(c, tuple):
                    kwargs["**"] = d; continue
                for kk, vv in c:
                    kv = self.pyval(kk)
                    if kv is _MISSING: raise Unsupported("** with symbolic keys")
                    if kv in kwargs: raise PyRaise(TypeError)
                    kwargs[kv] = vv
            else: kwargs[k.arg] = self.ev(k.value, env)
        return self.call(fn, args, kwargs, node=e, env=env)

    def extend_gen(self, recv, ge, env):
        cenv = Env(env, env.glob, "<comp>")
        def level(k):
            if k == len(ge.generators):
                self.call_method(recv, "append", [self.ev(ge.elt, cenv)], {}); return
            g = ge.generators[k]
            src = self.ev(g.iter, env if k == 0 else cenv)
            def body(v):
                self.assign(g.target, v, cenv)
                for c in g.ifs:
                    if not self.test(self.ev(c, cenv)): return
                level(k + 1)
            self.for_each(src, body, env=cenv)
        level(0)

    def make_super(self, env):
        e = env
        while e is not None and "__class_cell__" not in e.d: e = e.parent
        if e is None: raise Unsupported("super()")
        return SuperProxy(e.d["__class_cell__"], e.d["__self_cell__"])

    def call(self, fn, args, kwargs, node=None, env=None):
        self.depth += 1
        if self.depth > 60: raise Unsupported("call depth (recursion)")
        try: return self._call(fn, args, kwargs)
        finally: self.depth -= 1

    def _call(self, fn, args, kwargs):
        from . import lib
        if isinstance(fn, Bound): return self._call(fn.fn, [fn.self_] + args, kwargs)
        if isinstance(fn, Meth): return self.call_method(fn.recv, fn.name, args, kwargs)
        if isinstance(fn, Closure): return self.invoke(fn, args, kwargs)
        if isinstance(fn, HostFn): return fn.f(self, *args, **kwargs)
        if isinstance(fn, types.MethodType):
            s = fn.__self__
            if isinstance(s, type) or is_repo_fn(fn.__func__):
                return self._call(fn.__func__, [s if isinstance(s, type) else self.lift(s)] + args, kwargs)
        if isinstance(fn, types.FunctionType) or callable(fn):
            try: h = self.contracts.get(fn)
            except TypeError: h = None
            if h is not None:
                self.calls[getattr(fn, "__qualname__", str(fn))] += 1
                return h(self, args, kwargs)
            r = lib.call_lib(self, fn, args, kwargs)
            if r is not lib.NO: return r
        if isinstance(fn, types.FunctionType):
            if fn.__name__ == "__init__" and args and isinstance(args[0], Obj):
                for c in args[0].cls.__mro__:
                    if vars(c).get("__init__") is fn and not is_repo_fn(fn) and dataclasses.is_dataclass(c):
                        self.dataclass_init(args[0], c, args[1:], kwargs)
                        return NONE_T
            if is_repo_fn(fn):
                return self.invoke(fn, args, kwargs)
            if hasattr(fn, "__wrapped__") and fn.__code__.co_filename.endswith("contextlib.py"):
                return CMCall(fn.__wrapped__, args, kwargs)
            if hasattr(fn, "__wrapped__") and is_repo_fn(fn.__wrapped__):
                raise Unsupported("decorated function %s" % fn.__qualname__)
        if isinstance(fn, functools._lru_cache_wrapper) and is_repo_fn(fn.__wrapped__):
            return self._call(fn.__wrapped__, args, kwargs)      # memo of a pure function
        if isinstance(fn, type): return self.instantiate(fn, args, kwargs)
        if isinstance(fn, types.GenericAlias): return self._call(fn.__origin__, args, kwargs)
        if isinstance(fn, Obj) and hasattr(fn.cls, "__call__"):
            return self.call_method(fn, "__call__", args, kwargs)
        raise Unsupported("call of %r" % (fn,))

    def bind(self, node, defaults, kwdefaults, args, kwargs, name):
        a = node.args
        d = {}
        pos = [p.arg for p in a.posonlyargs + a.args]
        args = list(args)
        star = [x for x in args if isinstance(x, StarArg)]
        if star:
            if args[-1] is star[0] and len(star) == 1 and a.vararg and len(args) - 1 == len(pos):
                d[a.vararg.arg] = star[0].term
                for p, v in zip(pos, args): d[p] = v
                args = []
                pos2 = []
            else: raise Unsupported("star argument")
        else:
            if len(args) > len(pos):
                if a.vararg is None: raise PyRaise(TypeError, where="too many arguments for " + name)
                d[a.vararg.arg] = tuple(args[len(pos):]); args = args[:len(pos)]
            elif a.vararg is not None: d[a.vararg.arg] = ()
            for p, v in zip(pos, args): d[p] = v
        kw = dict(kwargs)
        if "**" in kw: raise Unsupported("** with a symbolic dict")
        for p in pos + [k.arg for k in a.kwonlyargs]:
            if p in kw:
                if p in d: raise PyRaise(TypeError, where="duplicate argument")
                d[p] = kw.pop(p)
        if kw:
            if a.kwarg is None: raise PyRaise(TypeError, where="unexpected keyword %s" % list(kw))
            d[a.kwarg.arg] = Cell("dict", tuple((S(k), v) for k, v in kw.items()))
        elif a.kwarg is not None: d[a.kwarg.arg] = Cell("dict", ())
        for p, dv in zip(reversed(pos), reversed(defaults)):
            if p not in d: d[p] = dv
        for k in a.kwonlyargs:
            if k.arg not in d:
                if k.arg in kwdefaults: d[k.arg] = kwdefaults[k.arg]
                else: raise PyRaise(TypeError, where="missing keyword argument")
        for p in pos:
            if p not in d: raise PyRaise(TypeError, where="missing argument %s of %s" % (p, name))
        return d

    def invoke(self, fn, args, kwargs): return self.invoke_body(fn, args, kwargs, generator=True)

    def invoke_body(self, fn, args, kwargs, generator=True):
        if isinstance(fn, Closure):
            node, parent, glob, name = fn.node, fn.env, fn.glob, fn.name
            defaults, kwd = fn.defaults, fn.kwdefaults
            cls = None
        else:
            node = SRC.find(fn)
            glob, name = fn.__globals__, fn.__qualname__
            defaults = [self.lift(x) for x in (fn.__defaults__ or ())]
            kwd = {k: self.lift(v) for k, v in (fn.__kwdefaults__ or {}).items()}
            parent = None
            self.inlined.add(fn.__module__ + ":" + name)
            cls = None
            if fn.__closure__:
                parent = Env(None, glob, "<closure>")
                for nm, c in zip(fn.__code__.co_freevars, fn.__closure__):
                    if nm == "__class__": cls = c.cell_contents
                    else: parent.d[nm] = self.lift(c.cell_contents)
        d = self.bind(node, defaults, kwd, args, kwargs, name)
        env = Env(parent, glob, name, d)
        if cls is not None:
            env.d["__class_cell__"] = cls
            env.d["__self_cell__"] = args[0] if args else None
        if isinstance(node, ast.Lambda): return self.ev(node.body, env)
        gen = generator and has_yield(node)
        if gen:
            # contextmanager-decorated closures are handled by their decorator
            out = Cell("list", ())
            self.yield_stack.append(out)
            try:
                try: self.exec_block(node.body, env)
                except Ret: pass
            finally: self.yield_stack.pop()
            return Iter(out.d["val"])
        try: self.exec_block(node.body, env)
        except Ret as r: return r.val
        return NONE_T

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name):
        from . import lib
        v = self.unopt(v)
        if isinstance(v, types.ModuleType):
            key = (v.__name__, name)
            if key in self.global_over: return self.global_over[key]
            if not hasattr(v, name): raise PyRaise(AttributeError, where=name)
            return self.lift(getattr(v, name))
        if isinstance(v, Term):
            s = v.sort
            if isinstance(s, tuple) and s[0] == "Rec":
                info = RECS_BY_NAME[s[1]]
                if name in dict(info.fields): return Fld(s[1], name, v)
                return self.class_attr(v, info.pycls, name)
            if s == J: return self.j_attr(v, name)
            if s == NONE: raise PyRaise(AttributeError, where="None." + name)
            return Meth(v, name)
        if isinstance(v, (Cell, Sub, tuple, Iter, Match, DictView)):
            r = lib.attr(self, v, name)
            return r
        if isinstance(v, Obj):
            if name in v.d:
                x = v.d[name]
                if isinstance(x, Stale): raise Unsupported("attribute %s: %s" % (name, x.why))
                return x
            return self.class_attr(v, v.cls, name)
        if isinstance(v, SuperProxy):
            mro = (v.self_.cls if isinstance(v.self_, Obj) else RECS_BY_NAME[v.self_.sort[1]].pycls if isinstance(v.self_, Term) else v.self_).__mro__
            for c in mro[mro.index(v.cls) + 1:]:
                if name in vars(c): return self.bind_attr(v.self_, vars(c)[name], c)
            raise PyRaise(AttributeError, where=name)
        if isinstance(v, type):
            key = ("class", v, name)
            if key in self.global_over: return self.global_over[key]
            if name == "__dataclass_fields__" and dataclasses.is_dataclass(v): return self.dc_fields(v)
            for c in v.__mro__:
                if name in vars(c):
                    a = vars(c)[name]
                    if isinstance(a, classmethod): return Bound(v, a.__func__)
                    if isinstance(a, staticmethod): return a.__func__
                    if hasattr(a, "fget") and not isinstance(a, property): return self.call(a.fget, [v], {})
                    return self.lift(getattr(v, name))
            if hasattr(v, name): return self.lift(getattr(v, name))
            raise PyRaise(AttributeError, where=name)
        r = lib.attr(self, v, name)
        return r

    def class_attr(self, v, cls, name):
        if name == "__class__": return cls
        if name == "__dataclass_fields__": return self.dc_fields(cls)
        for c in cls.__mro__:
            if name in vars(c): return self.bind_attr(v, vars(c)[name], c)
        raise PyRaise(AttributeError, where="%s.%s" % (cls.__name__, name))

    def dc_fields(self, cls):
        from . import lib
        return Cell("dict", tuple((S(k), lib.DCField(f)) for k, f in cls.__dataclass_fields__.items()))

    def bind_attr(self, v, a, cls):
        pc = v.cls if isinstance(v, Obj) else RECS_BY_NAME[v.sort[1]].pycls if isinstance(v, Term) else v
        if isinstance(a, property): return self.call(a.fget, [v], {})
        if isinstance(a, functools.cached_property): return self.call(a.func, [v], {})
        if isinstance(a, classmethod): return Bound(pc, a.__func__)
        if isinstance(a, staticmethod): return a.__func__
        if isinstance(a, types.FunctionType): return Bound(v, a)
        if isinstance(a, (types.WrapperDescriptorType, types.MethodDescriptorType)): return Bound(v, a)
        return self.lift(a)

    def j_attr(self, v, name):
        return Meth(v, name)

    def setattr(self, v, name, val):
        if isinstance(v, Obj):
            a = None
            for c in v.cls.__mro__:
                if name in vars(c): a = vars(c)[name]; break
            if isinstance(a, property):
                if a.fset is None: raise PyRaise(AttributeError)
                self.call(a.fset, [v, val], {}); return
            if v.d.get("__frozen__"): raise Unsupported("attribute of frozen object")
            self.write(v, name, val)
            return
        if isinstance(v, type):
            key = ("class", v, name)
            if key in self.global_over or True:
                raise Unsupported("class attribute assignment")
        raise Unsupported("setattr on %r" % (v,))

    def call_method(self, recv, name, args, kwargs):
        from . import lib
        if isinstance(recv, Obj):
            return self.call(self.getattr(recv, name), args, kwargs)
        if isinstance(recv, Term) and isinstance(recv.sort, tuple) and recv.sort[0] == "Rec":
            return self.call(self.getattr(recv, name), args, kwargs)
        return lib.method(self, recv, name, args, kwargs)

    def getitem(self, v, k):
        from . import lib
        return lib.getitem(self, v, k)

    def setitem(self, v, k, x):
        from . import lib
        return lib.setitem(self, v, k, x)

    def delitem(self, v, k):
        from . import lib
        return lib.delitem(self, v, k)

    def slice(self, v, lo, hi):
        from . import lib
        return lib.slice_(self, v, lo, hi)

    # ------------------------------------------------------------ object construction
    def instantiate(self, cls, args, kwargs):
        from . import lib
        if cls in RECS:
            return RECS[cls].construct(self, cls, args, kwargs)
        if issubclass(cls, BaseException): return ExcVal(cls)
        if cls.__module__.split(".")[0] in ("variantlib",) or cls in OBJ_CLASSES:
            o = Obj(cls, {})
            return self.init_obj(o, args, kwargs)
        raise Unsupported("construction of %s" % cls)

    def init_obj(self, o, args, kwargs):
        cls = o.cls
        init = None
        for c in cls.__mro__:
            if "__init__" in vars(c): init = (c, vars(c)["__init__"]); break
        c, f = init
        if is_repo_fn(f):
            self.call(f, [o] + args, kwargs)
        elif dataclasses.is_dataclass(c):
            self.dataclass_init(o, c, args, kwargs)
        elif c is object:
            if args or kwargs: raise PyRaise(TypeError)
        else: raise Unsupported("__init__ of %s" % cls)
        return o

    def dataclass_init(self, o, c, args, kwargs):
        """the __init__ that @dataclass generates"""
        fields = [f for f in dataclasses.fields(c) if f.init]
        names = [f.name for f in fields]
        if len(args) > len(names): raise PyRaise(TypeError)
        given = dict(zip(names, args))
        for k, v in kwargs.items():
            if k == "**": raise Unsupported("** with symbolic dict")
            if k not in names or k in given: raise PyRaise(TypeError, where="dataclass field %s" % k)
            given[k] = v
        for f in fields:
            if f.name in given: v = given[f.name]
            elif f.default is not dataclasses.MISSING: v = self.lift(f.default)
            elif f.default_factory is not dataclasses.MISSING: v = self.call(f.default_factory, [], {})
            else: raise PyRaise(TypeError, where="missing field " + f.name)
            self.write(o, f.name, v)
        for k in o.cls.__mro__:
            if "__post_init__" in vars(k):
                self.call(vars(k)["__post_init__"], [o], {}); break


OBJ_CLASSES: set = set()


class StarArg:
    def __init__(self, term): self.term = term


class HostFn:
    """function implemented by the verifier (assumed contract of a dependency or a spec helper)"""
    _pyvc_value_ = True
    def __init__(self, name, f): self.name, self.f = name, f
    def __repr__(self): return "<host %s>" % self.name


class Suppress:
    def __init__(self, classes): self.classes = classes


class CMCall:
    def __init__(self, fn, args, kwargs): self.fn, self.args, self.kwargs = fn, args, kwargs


class LibCM:
    def enter(self, it): return NONE_T
    def exit(self, it): pass


class PathVal:
    def __init__(self, term): self.term = term


class DataclassFields:
    def __init__(self, cls): self.cls = cls


class DictView:
    """d.keys() / d.values() / d.items() (live view of the dict)"""
    def __init__(self, m, what): self.m, self.what = m, what
    def seq(self, it):
        c = it.get(self.m)
        if isinstance(c, tuple):
            return tuple({"keys": k, "values": v, "items": (k, v)}[self.what] for k, v in c)
        if isinstance(c, Term) and c.sort == J: c = JAs("dict", c)
        if self.what == "keys": return it.seq_of(SKeys(c))
        if c.op == "MOf" and c.args[0].op == "SLit":
            # literal dict with syntactically distinct constant keys
            ks = [Proj(0, p) for p in c.args[0].args]
            if all(is_const(k) for k in ks) and len(set(ks)) == len(ks):
                return tuple((it.view(Proj(0, p)), it.view(Proj(1, p))) if self.what == "items" else it.view(Proj(1, p)) for p in c.args[0].args)
        k = fresh("k", c.sort[1])
        if self.what == "values": e = MGet(c, k)
        else: e = MkTup(k, MGet(c, k))
        return SComp(k, None, SKeys(c), SLit(e.sort, e))


_MISSING = object()


def _structural(s):
    """does Eq on this sort coincide with python =="""
    return not ir._has_unordered(s, set())


def _load(t):
    import copy
    t2 = copy.copy(t)
    t2.ctx = ast.Load()
    return t2


def _target_names(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]
