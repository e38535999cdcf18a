"""String terms and regular languages: membership of composed strings, values of capture groups.

Everything here is exact automata reasoning (regexp.py): `InRe(L, strip(s))`, `InRe(L, group(s))` and
`InRe(L, a + b + ...)` become memberships of the underlying strings; a capture group of a concatenation is the
part (or run of parts) that the tagged automaton proves it to be."""
from __future__ import annotations
import functools, re
from . import ir, regexp
from .regexp import MAXC, NFA, DFA, determinize, inter, minus, subset, union, lang, erase_tags, Unsupported
from .ir import *

O, C = MAXC, MAXC + 1
ALL = lang("(?s:.*)")
WS_CH = "[" + "".join(re.escape(chr(i)) for i in range(MAXC) if chr(i).isspace()) + "]"
WS = lang(WS_CH + "*")
NOEDGE = minus(ALL, union(lang("(?s:" + WS_CH + ".*)"), lang("(?s:.*" + WS_CH + ")")))
GROUPS: dict = {}         # digest -> tagged DFA of one capture group (optional groups: words without tags)


def register(d):
    k = "L" + d.digest()
    regexp.TABLE[k] = d
    return k


def frag(n, d):
    m = [n.st() for _ in d.trans]
    end = n.st()
    for q, row in enumerate(d.trans):
        for a, b, t in row: n.tr[m[q]].append((((a, b),), m[t]))
    for q in d.acc: n.eps[m[q]].append(end)
    return m[d.start], end


def concat(*ds):
    n = NFA()
    f = n.cat(*[frag(n, d) if isinstance(d, DFA) else n.chars([(d, d)]) for d in ds])
    return determinize(n, f[0], frozenset([f[1]]))


_memo: dict = {}


def cached(f):
    def g(*ds):
        k = (f.__name__,) + tuple(d.digest() if isinstance(d, DFA) else d for d in ds)
        if k not in _memo: _memo[k] = f(*ds)
        return _memo[k]
    return g


@cached
def lift(d):
    """words over characters and tags whose characters are in d"""
    rows = [tuple(sorted(list(row) + [(O, C, q)])) for q, row in enumerate(d.trans)]
    return regexp.minimize([list(r) for r in rows], set(d.acc))


@cached
def content(d):
    """tagged words  u <open> w <close> v  with w in d"""
    return concat(ALL, O, d, C, ALL)


TAGGED = content(ALL)


@cached
def _inter(a, b): return inter(a, b)
@cached
def _subset(a, b): return subset(a, b)
@cached
def _erase(a): return erase_tags(a)
@cached
def _strip_pre(d): return concat(WS, inter(d, NOEDGE), WS)
@cached
def _strip_pre_tagged(d): return concat(WS, inter(d, lift(NOEDGE)), WS)


@functools.lru_cache(None)
def always_set(d): return _inter(d, TAGGED) is d or regexp.minus(d, TAGGED).is_empty()


@functools.lru_cache(None)
def group_dfa(pattern, flags, name):
    p, fl, gd = regexp._parse(pattern, int(flags))
    if isinstance(name, str): name = gd[name]
    b = regexp.Builder(fl, {name: 0})
    f = b.seq(p, last=True)
    return determinize(b.n, f[0], frozenset([f[1]]))


def group_term(d, s, what="value"):
    """value of (what="set": whether) the capture group described by the tagged DFA d in the matching string s"""
    if s.op == "StrOp" and s.data == "strip":
        return group_term(_strip_pre_tagged(d), s.args[0], what)
    if s.op == "Ite":
        return Ite(s.args[0], group_term(d, s.args[1], what), group_term(d, s.args[2], what))
    if what == "set":
        return InRe(register(_erase(_inter(d, TAGGED))), s)
    if s.op == "StrCat":
        parts = flat_parts(s)
        ls = [part_lang(p) for p in parts]
        for w in range(1, len(parts) + 1):
            for a in range(0, len(parts) - w + 1):
                m = concat(*(ls[:a] + [O] + ls[a:a + w] + [C] + ls[a + w:]))
                if _subset(m, d): return StrCat(*parts[a:a + w])
    if is_const(s):
        v = extract(d, cval(s))
        if v is not None: return S(v)
    k = d.digest()
    if k not in GROUPS:
        if regexp.ambiguous(d) is not None: raise Unsupported("ambiguous capture group")
        GROUPS[k] = d
        ir.STROPS["grp:" + k] = lambda x, d=d: _extract_or_undef(d, x)
    return mk("StrOp", (s,), STR, "grp:" + k)


def extract(d, s):
    """the group of s (None: no match or group not set)"""
    cs = [ord(c) for c in s]
    st = [(d.start, 0, None, None)]
    seen = set()
    while st:
        q, p, a, b = st.pop()
        if (q, p, a, b) in seen: continue
        seen.add((q, p, a, b))
        if p == len(cs) and q in d.acc and b is not None: return s[a:b]
        t = d.step(q, O)
        if t is not None: st.append((t, p, p, b))
        t = d.step(q, C)
        if t is not None: st.append((t, p, a, p))
        if p < len(cs):
            t = d.step(q, cs[p])
            if t is not None: st.append((t, p + 1, a, b))
    return None


def _extract_or_undef(d, s):
    v = extract(d, s)
    if v is None: raise ir.Undefined("group")
    return v


def is_group(s): return s.op == "StrOp" and isinstance(s.data, str) and s.data.startswith("grp:")
def dfa_of_group(s): return GROUPS[s.data[4:]]


def flat_parts(s):
    out = []
    for p in s.args:
        if p.op == "StrCat": out += flat_parts(p)
        else: out.append(p)
    return out


@functools.lru_cache(None)
def const_lang(s): return lang(re.escape(s))


def part_lang(p):
    """a language that contains every value of the term"""
    from .interp import FIELD_LANG
    if is_const(p): return const_lang(cval(p))
    if p.op == "Fld" and p.data in FIELD_LANG: return lang(*FIELD_LANG[p.data])
    if p.op == "StrCat": return concat(*[part_lang(q) for q in flat_parts(p)])
    if p.op == "Ite": return union(part_lang(p.args[1]), part_lang(p.args[2]))
    if p.op == "StrOp" and p.data == "strip": return NOEDGE
    if p.op == "StrOp" and is_group(p): return content_lang(dfa_of_group(p))
    if p.op == "StrOp" and p.data == "str" and p.args[0].sort == INT:
        return lang("[0-9]+" if p.args[0].op == "App" and p.args[0].data in NATURALS else "-?[0-9]+")
    if p.op == "StrOp" and p.data == "prefix" and is_const(p.args[1]) and cval(p.args[1]) >= 0: return prefixes(part_lang(p.args[0]), cval(p.args[1]))
    if p.op == "App" and p.data in APP_LANG: return lang(APP_LANG[p.data])
    if p.op == "StrOp" and p.data in OP_LANG: return OP_LANG[p.data]
    return ALL


OP_LANG: dict = {}
APP_LANG = {"sha256_hex": "[0-9a-f]{64}"}      # hashlib: the form of a hexadecimal digest


@cached
def prefixes(d, n):
    """the first n characters of words of d (the whole word where it is shorter)"""
    if d is ALL: return lang("(?s:.){0,%d}" % n)
    live, grew = set(d.acc), True
    while grew:
        grew = False
        for q, row in enumerate(d.trans):
            if q not in live and any(t in live for _, _, t in row): live.add(q); grew = True
    begun = regexp.minimize([list(r) for r in d.trans], live)
    return union(inter(begun, lang("(?s:.){%d}" % n)), inter(d, lang("(?s:.){0,%d}" % (n - 1))) if n else lang(""))


NATURALS = {"version_major", "version_minor", "version_micro"}     # packaging: release numbers are not negative


@cached
def content_lang(d):
    """what the group can be: characters between the tags"""
    n = NFA()
    m = {}
    for ph in (0, 1, 2):
        for q in range(len(d.trans)): m[q, ph] = n.st()
    end = n.st()
    for q, row in enumerate(d.trans):
        for a, b, t in row:
            for ph in (0, 1, 2):
                if a < MAXC:
                    if ph == 1: n.tr[m[q, ph]].append((((a, min(b, MAXC - 1)),), m[t, ph]))
                    else: n.eps[m[q, ph]].append(m[t, ph])
                if a <= O <= b and ph == 0: n.eps[m[q, 0]].append(m[t, 1])
                if a <= C <= b and ph == 1: n.eps[m[q, 1]].append(m[t, 2])
    for q in d.acc: n.eps[m[q, 2]].append(end)
    return determinize(n, m[d.start, 0], frozenset([end]))


def in_lang(d, s):
    """membership as a term about the underlying string"""
    if s.op == "StrOp" and s.data == "strip": return in_lang(_strip_pre(d), s.args[0])
    if is_group(s):
        return in_lang(_erase(_inter(dfa_of_group(s), content(d))), s.args[0])
    if s.op == "Ite": return Ite(s.args[0], in_lang(d, s.args[1]), in_lang(d, s.args[2]))
    if is_const(s): return B(d.accepts(cval(s)))
    pl = part_lang(s)
    if pl is not ALL:
        if _subset(pl, d): return TRUE
        if _inter(pl, d).is_empty(): return FALSE
    if d.is_empty(): return FALSE
    if _subset(ALL, d): return TRUE
    return mk("InRe", (s,), BOOL, register(d))


def hook(key, s):
    d = regexp.TABLE[key]
    if isinstance(d, tuple): return None
    return in_lang(d, s)


ir.INRE_HOOK = hook
ir.STROP_HOOK = lambda name, s: group_term(GROUPS[name[4:]], s)


SOME = regexp.minus(ALL, lang(""))


@cached
def prefix_code(d):
    """no word of d is empty or begins another one: a concatenation of words of d has one reading"""
    return not d.accepts("") and inter(d, concat(d, SOME)).is_empty()


def one_reading(p, q):
    """texts put together like this come apart in one way only"""
    ls = [union(part_lang(u), part_lang(v)) for u, v in zip(p, q)]
    m = concat(*[x for u, l in zip(p, ls) for x in ([l] if is_const(u) else [O, l, C])])
    return regexp.ambiguous(m) is None


def same_group(langs, ta, tb):
    """are two capture groups of the same string equal whenever the string is in langs (list of (DFA, bool))?"""
    a, b = dfa_of_group(ta), dfa_of_group(tb)
    d = ALL
    for l, pos in langs: d = inter(d, l) if pos else minus(d, l)
    a2, b2 = inter(inter(a, TAGGED), lift(d)), inter(inter(b, TAGGED), lift(d))
    # every string of d has its group set in both, and the tagged words coincide
    if a2.digest() == b2.digest(): return True
    common = inter(erase_tags(a2), erase_tags(b2))
    a3, b3 = inter(a2, lift(common)), inter(b2, lift(common))
    return a3.digest() == b3.digest()
