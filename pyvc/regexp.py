"""Regular languages of Python `re` patterns, decided exactly with automata.

A pattern is parsed with CPython's own parser (re._parser), turned into an NFA
over code points (capture groups optionally become tag symbols) and determinised
/ minimised.  Two patterns accept the same strings iff their canonical minimal
automata are identical; an unambiguous tagged automaton also determines every
capture group.  Unsupported constructs (look-around, back-references, word
boundaries) raise Unsupported.
"""
from __future__ import annotations
import functools, re, hashlib
from re import _parser as sp, _constants as sc

MAXC = 0x110000          # first code that is not a character; tags live above
DEC = MAXC + 2048        # choice symbols of the backtracking matcher
END = MAXC + 4096


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- interval sets: sorted tuple of (lo, hi) inclusive
def norm(iv):
    iv = sorted(iv)
    out = []
    for lo, hi in iv:
        if lo > hi: continue
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else: out.append((lo, hi))
    return tuple(out)


def compl(iv):
    out, p = [], 0
    for lo, hi in norm(iv):
        if lo > p: out.append((p, lo - 1))
        p = hi + 1
    if p < MAXC: out.append((p, MAXC - 1))
    return tuple(out)


def _from_pred(pred):
    out, start = [], None
    for c in range(MAXC):
        ok = pred(chr(c))
        if ok and start is None: start = c
        if not ok and start is not None:
            out.append((start, c - 1)); start = None
    if start is not None: out.append((start, MAXC - 1))
    return tuple(out)


@functools.lru_cache(None)
def category(name, ascii_):
    pat = {"CATEGORY_SPACE": r"\s", "CATEGORY_DIGIT": r"\d", "CATEGORY_WORD": r"\w"}[name]
    if ascii_:
        r = re.compile(pat, re.A)
        return _from_pred(lambda c: ord(c) < 128 and r.match(c) is not None)
    if name == "CATEGORY_SPACE": return _from_pred(str.isspace)
    if name == "CATEGORY_DIGIT": return _from_pred(str.isdecimal)
    return _from_pred(lambda c: c.isalnum() or c == "_")


ANYCHAR = ((0, MAXC - 1),)


class NFA:
    """Thompson construction; state 0.. ; fragments are (start, end)"""
    def __init__(self):
        self.eps, self.tr = [], []

    def st(self):
        self.eps.append([]); self.tr.append([])
        return len(self.eps) - 1

    def chars(self, iv):
        a, b = self.st(), self.st()
        self.tr[a].append((norm(iv), b))
        return a, b

    def empty(self):
        a = self.st(); b = self.st(); self.eps[a].append(b)
        return a, b

    def cat(self, *fs):
        if not fs: return self.empty()
        for (a, b), (c, d) in zip(fs, fs[1:]): self.eps[b].append(c)
        return fs[0][0], fs[-1][1]

    def alt(self, fs):
        a, b = self.st(), self.st()
        for c, d in fs:
            self.eps[a].append(c); self.eps[d].append(b)
        return a, b

    def star(self, f):
        a, b = self.st(), self.st()
        self.eps[a] += [f[0], b]; self.eps[f[1]] += [f[0], b]
        return a, b


class Builder:
    def __init__(self, flags, tags=None, dec=False):
        self.n = NFA()
        self.dec = dec            # mark the choices of the backtracking matcher, preferred one first
        self.flags = flags
        self.tags = tags          # None or dict group-index -> tag number
        self.fold = bool(flags & re.I)
        self.ascii = bool(flags & re.A)

    def cs(self, iv):
        if self.fold:
            iv = _casefold(norm(iv))
        return iv

    def inset(self, items):
        neg = False
        iv = []
        for op, av in items:
            if op is sc.NEGATE: neg = True
            elif op is sc.LITERAL: iv.append((av, av))
            elif op is sc.RANGE: iv.append(tuple(av))
            elif op is sc.CATEGORY: iv += self.cat_(av)
            else: raise Unsupported("set item %s" % op)
        iv = self.cs(norm(iv))
        return compl(iv) if neg else iv

    def cat_(self, av):
        n = str(av)
        if "NOT_" in n:
            return compl(category(n.replace("NOT_", "").replace("UNI_", ""), self.ascii))
        return category(n.replace("UNI_", ""), self.ascii)

    def pick(self, k, f): return self.n.cat(self.n.chars([(DEC + k, DEC + k)]), f)

    def repeat_dec(self, lo, hi, sub, greedy):
        n = self.n
        if sub.getwidth()[0] == 0: raise Unsupported("repetition of something that can be empty")
        go, stop = (0, 1) if greedy else (1, 0)
        fs = [self.seq(sub) for _ in range(lo)]
        if hi is sc.MAXREPEAT:
            a, b = n.st(), n.st()
            f, e = self.pick(go, self.seq(sub)), self.pick(stop, n.empty())
            n.eps[a] += [f[0], e[0]]; n.eps[f[1]].append(a); n.eps[e[1]].append(b)
            fs.append((a, b))
        else:
            if hi > 200: raise Unsupported("large repeat")
            t = n.empty()
            for _ in range(hi - lo): t = n.alt([self.pick(go, n.cat(self.seq(sub), t)), self.pick(stop, n.empty())])
            fs.append(t)
        return n.cat(*fs)

    def seq(self, items, last=False):
        items = list(items)
        return self.n.cat(*[self.one(it, last and k == len(items) - 1, k == 0) for k, it in enumerate(items)])

    def one(self, it, last=False, first=False):
        op, av = it
        n = self.n
        if op is sc.LITERAL: return n.chars(self.cs([(av, av)]))
        if op is sc.NOT_LITERAL: return n.chars(compl(self.cs([(av, av)])))
        if op is sc.ANY:
            return n.chars(ANYCHAR if self.flags & re.S else compl([(10, 10)]))
        if op is sc.IN: return n.chars(self.inset(av))
        if op is sc.BRANCH and self.dec: return n.alt([self.pick(k, self.seq(b, last)) for k, b in enumerate(av[1])])
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and self.dec: return self.repeat_dec(av[0], av[1], av[2], op is sc.MAX_REPEAT)
        if op is sc.BRANCH:
            return n.alt([self.seq(b, last) for b in av[1]])
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            fs = [self.seq(sub) for _ in range(lo)]
            if hi is sc.MAXREPEAT:
                fs.append(n.star(self.seq(sub)))
            else:
                if hi > 2000: raise Unsupported("large repeat")
                for _ in range(hi - lo):
                    fs.append(n.alt([self.seq(sub), n.empty()]))
                # x{0,k} as nested optional would be unambiguous; this form is only used for the
                # language, ambiguity of captures is decided on the tagged words, not on paths
            return n.cat(*fs) if fs else n.empty()
        if op is sc.SUBPATTERN:
            g, add, dele, p = av
            saved = self.flags, self.fold, self.ascii
            self.flags = (self.flags | add) & ~dele
            self.fold, self.ascii = bool(self.flags & re.I), bool(self.flags & re.A)
            f = self.seq(p, last)
            self.flags, self.fold, self.ascii = saved
            if self.tags is not None and g in self.tags:
                t = MAXC + 2 * self.tags[g]
                return n.cat(n.chars([(t, t)]), f, n.chars([(t + 1, t + 1)]))
            return f
        if op is sc.AT:
            if av in (sc.AT_END_STRING,) and last: return n.empty()
            if av is sc.AT_END and last and not self.flags & re.M:
                return n.alt([n.empty(), n.chars([(10, 10)])])
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING) and first: return n.empty()
            raise Unsupported("anchor %s" % av)
        raise Unsupported("regex construct %s" % op)


@functools.lru_cache(None)
def _casefold(iv):
    pat = re.compile("[" + "".join("%s-%s" % (re.escape(chr(a)), re.escape(chr(b))) for a, b in iv) + "]", re.I)
    return _from_pred(lambda c: pat.match(c) is not None)


def eclose(n, S):
    st = list(S); S = set(S)
    while st:
        q = st.pop()
        for r in n.eps[q]:
            if r not in S: S.add(r); st.append(r)
    return frozenset(S)


class DFA:
    """complete on demand: trans[q] = tuple of (lo, hi, target); missing = reject"""
    def __init__(self, trans, acc, start=0):
        self.trans, self.acc, self.start = trans, acc, start

    def step(self, q, c):
        for lo, hi, t in self.trans[q]:
            if lo <= c <= hi: return t
        return None

    def accepts_codes(self, cs):
        q = self.start
        for c in cs:
            q = self.step(q, c)
            if q is None: return False
        return q in self.acc

    def accepts(self, s): return self.accepts_codes(map(ord, s))

    def is_empty(self): return not self.acc

    def key(self):
        return (tuple(self.trans), tuple(sorted(self.acc)))

    def digest(self):
        d = self.__dict__.get("_digest")
        if d is None: d = self.__dict__["_digest"] = self._compute_digest()
        return d

    def _compute_digest(self):
        return hashlib.sha256(repr(self.key()).encode()).hexdigest()[:16]


def split(pairs):
    """pairs: list of (intervals, payload) -> list of (lo, hi, set(payload)) atomic"""
    pts = set()
    for iv, _ in pairs:
        for lo, hi in iv: pts.add(lo); pts.add(hi + 1)
    pts = sorted(pts)
    ev = {}
    for iv, p in pairs:
        for lo, hi in iv:
            ev.setdefault(lo, []).append((p, 1)); ev.setdefault(hi + 1, []).append((p, -1))
    out, on = [], {}
    for lo, nx in zip(pts, pts[1:]):
        for p, d in ev.get(lo, ()):
            k = on.get(p, 0) + d
            if k: on[p] = k
            else: del on[p]
        if on: out.append((lo, nx - 1, frozenset(on)))
    return out


def determinize(n, start, finals):
    s0 = eclose(n, [start])
    idx = {s0: 0}
    order = [s0]
    trans = []
    k = 0
    while k < len(order):
        S = order[k]; k += 1
        pairs = [(iv, t) for q in S for iv, t in n.tr[q]]
        row = []
        for lo, hi, ts in split(pairs):
            T = eclose(n, ts)
            if T not in idx:
                idx[T] = len(order); order.append(T)
                if len(order) > 20000: raise Unsupported("automaton too large")
            row.append((lo, hi, idx[T]))
        trans.append(row)
    acc = {i for i, S in enumerate(order) if S & finals}
    return minimize(trans, acc)


def minimize(trans, acc):
    n = len(trans)
    # remove states that cannot reach acceptance
    rev = [[] for _ in range(n)]
    for q, row in enumerate(trans):
        for _, _, t in row: rev[t].append(q)
    live = set(acc); st = list(acc)
    while st:
        q = st.pop()
        for p in rev[q]:
            if p not in live: live.add(p); st.append(p)
    trans = [[(a, b, t) for a, b, t in row if t in live] for row in trans]
    cls = [1 if q in acc else 0 for q in range(n)]
    for q in range(n):
        if q not in live: cls[q] = -1
    while True:
        sig = {}
        new = [0] * n
        for q in range(n):
            if q not in live: new[q] = -1; continue
            row = []
            for a, b, t in trans[q]:
                c = cls[t]
                if row and row[-1][2] == c and row[-1][1] + 1 == a: row[-1] = (row[-1][0], b, c)
                else: row.append((a, b, c))
            s = (cls[q], tuple(row))
            new[q] = sig.setdefault(s, len(sig))
        if len(set(new)) == len(set(cls)):
            cls = new; break
        cls = new
    # canonical numbering by BFS from the start state
    if 0 not in live: return DFA([()], set())
    rep = {}
    for q in range(n):
        if q in live: rep.setdefault(cls[q], q)
    num = {cls[0]: 0}; order = [cls[0]]; out = []
    k = 0
    while k < len(order):
        q = rep[order[k]]; k += 1
        row = []
        for a, b, t in trans[q]:
            c = cls[t]
            if c not in num: num[c] = len(order); order.append(c)
            if row and row[-1][2] == num[c] and row[-1][1] + 1 == a: row[-1] = (row[-1][0], b, num[c])
            else: row.append((a, b, num[c]))
        out.append(tuple(row))
    acc2 = {num[cls[q]] for q in acc if cls[q] in num}
    return DFA(out, acc2)


def product(d1, d2, accept):
    idx = {(d1.start, d2.start): 0}; order = [(d1.start, d2.start)]; trans = []
    k = 0
    while k < len(order):
        p, q = order[k]; k += 1
        pairs = []
        if p is not None: pairs += [(((a, b),), ("l", t)) for a, b, t in d1.trans[p]]
        if q is not None: pairs += [(((a, b),), ("r", t)) for a, b, t in d2.trans[q]]
        row = []
        for lo, hi, s in split(pairs):
            tp = next((t for k_, t in s if k_ == "l"), None)
            tq = next((t for k_, t in s if k_ == "r"), None)
            T = (tp, tq)
            if T not in idx: idx[T] = len(order); order.append(T)
            row.append((lo, hi, idx[T]))
        trans.append(row)
    acc = {i for i, (p, q) in enumerate(order) if accept(p is not None and p in d1.acc, q is not None and q in d2.acc)}
    return minimize(trans, acc)


def inter(a, b): return product(a, b, lambda x, y: x and y)
def union(a, b): return product(a, b, lambda x, y: x or y)
def minus(a, b): return product(a, b, lambda x, y: x and not y)
def subset(a, b): return minus(a, b).is_empty()


def shortest(d):
    """a shortest accepted word (list of codes) or None; prefers printable representatives"""
    from collections import deque
    if not d.acc: return None
    seen = {d.start}; dq = deque([(d.start, [])])
    while dq:
        q, w = dq.popleft()
        if q in d.acc: return w
        for a, b, t in d.trans[q]:
            if t not in seen:
                seen.add(t)
                c = a
                for cand in (97, 48, 49, 45, 46, 32):
                    if a <= cand <= b: c = cand; break
                dq.append((t, w + [c]))
    return None


def to_str(codes):
    return "".join(chr(c) for c in codes if c < MAXC) if codes is not None else None


def erase_tags(d):
    """language with the tag symbols removed"""
    n = NFA()
    for _ in d.trans: n.st()
    for q, row in enumerate(d.trans):
        for a, b, t in row:
            if a >= MAXC: n.eps[q].append(t)
            elif b >= MAXC:
                n.tr[q].append((((a, MAXC - 1),), t)); n.eps[q].append(t)
            else: n.tr[q].append((((a, b),), t))
    return determinize(n, d.start, frozenset(d.acc))


def ambiguous(d, d2=None):
    """is there a string with two different taggings, one in d and one in d2 (default d)?  Returns the
    pair of taggings (code lists) or None.  Taggings are compared as words: product over the erased
    alphabet of two deterministic automata, with tag runs explored as canonical blocks."""
    d2 = d2 or d
    # between two characters a tagging inserts a (possibly empty) block of tags. Compare block by block.
    def blocks(dd, q):
        """all (tagword, state) reachable from q by tags only (tag words are finite: no tag cycles)"""
        out = []; st = [(q, ())]
        while st:
            s, w = st.pop()
            out.append((w, s))
            if len(w) > 64: raise Unsupported("tag cycle")
            for a, b, t in dd.trans[s]:
                for c in range(max(a, MAXC), b + 1): st.append((t, w + (c,)))
        return out
    from collections import deque
    start = (d.start, d2.start, False)
    seen = {start: None}; dq = deque([start])
    while dq:
        cur = dq.popleft()
        p, q, df = cur
        for w1, p1 in blocks(d, p):
            for w2, q1 in blocks(d2, q):
                ndf = df or w1 != w2
                if p1 in d.acc and q1 in d2.acc and ndf:
                    path = [(w1, w2, None)]
                    c = cur
                    while seen[c] is not None:
                        prev, a, b, ch = seen[c]
                        path.append((a, b, ch)); c = prev
                    path.reverse()
                    A, Bw = [], []
                    for a, b, ch in path:
                        A += list(a); Bw += list(b)
                        if ch is not None: A.append(ch); Bw.append(ch)
                    return A, Bw
                for a1, b1, t1 in d.trans[p1]:
                    if a1 >= MAXC: continue
                    for a2, b2, t2 in d2.trans[q1]:
                        lo, hi = max(a1, a2), min(b1, b2, MAXC - 1)
                        if lo > hi: continue
                        nx = (t1, t2, ndf)
                        if nx not in seen:
                            seen[nx] = (cur, w1, w2, 97 if lo <= 97 <= hi else lo); dq.append(nx)
    return None


def _blocks(dd, q):
    out, st = [], [(q, ())]
    while st:
        s, w = st.pop()
        out.append((w, s))
        if len(w) > 80: raise Unsupported("tag cycle")
        for a, b, t in dd.trans[s]:
            for c in range(max(a, MAXC), b + 1): st.append((t, w + (c,)))
    return out


def prefers_other(td, ts):
    """a string (codes) with a reading listed in ts, for which the backtracking matcher whose readings with
    choices are td finds another reading first; None if there is none"""
    from collections import deque
    start = (td.start, td.start, ts.start, 0, False)
    seen = {start: None}; dq = deque([start])
    cache = {}
    def blocks(q):
        if q not in cache: cache[q] = [(w, tuple(c for c in w if c < DEC), s) for w, s in _blocks(td, q)]
        return cache[q]
    def run(q, tags):
        for c in tags:
            q = next((t for a, b, t in ts.trans[q] if a <= c <= b), None)
            if q is None: return None
        return q
    while dq:
        cur = dq.popleft()
        p, q, r, st, df = cur
        for w2, g2, q1 in blocks(q):
            r1 = run(r, g2)
            if r1 is None: continue
            for w1, g1, p1 in blocks(p):
                if st == 0:
                    if w1 == w2: st1 = 0
                    elif w1 == w2[:len(w1)] or w2 == w1[:len(w2)]: continue
                    else: st1 = 1 if w1 < w2 else 2
                else: st1 = st
                if st1 == 2: continue
                df1 = df or g1 != g2
                if p1 in td.acc and q1 in td.acc and r1 in ts.acc and st1 == 1 and df1:
                    out = []
                    while seen[cur] is not None: cur, ch = seen[cur]; out.append(ch)
                    return out[::-1]
                for a1, b1, t1 in td.trans[p1]:
                    if a1 >= MAXC: continue
                    for a2, b2, t2 in td.trans[q1]:
                        lo, hi = max(a1, a2), min(b1, b2, MAXC - 1)
                        if lo > hi: continue
                        for a3, b3, t3 in ts.trans[r1]:
                            l2, h2 = max(lo, a3), min(hi, b3)
                            if l2 > h2: continue
                            nx = (t1, t2, t3, st1, df1)
                            if nx not in seen:
                                seen[nx] = (cur, 97 if l2 <= 97 <= h2 else l2); dq.append(nx)
    return None


# ---------------------------------------------------------------- public entry points
def _parse(pattern, flags):
    p = sp.parse(pattern, flags)
    return p, p.state.flags | flags, dict(p.state.groupdict)


@functools.lru_cache(None)
def lang(pattern, flags=0, mode="fullmatch"):
    """DFA of the strings s for which re.<mode>(pattern, s) succeeds"""
    p, fl, _ = _parse(pattern, int(flags))
    b = Builder(fl)
    f = b.seq(p, last=True)
    n = b.n
    if mode == "fullmatch": pass
    elif mode in ("match", "search"):
        if mode == "search": f = n.cat(n.star(n.chars(ANYCHAR)), f)
        items = list(p)
        if not (items and items[-1][0] is sc.AT):
            f = n.cat(f, n.star(n.chars(ANYCHAR)))
    else: raise Unsupported(mode)
    return determinize(n, f[0], frozenset([f[1]]))


@functools.lru_cache(None)
def tagged(pattern, flags=0, names=None, dec=False):
    """(DFA over characters and group tags of the full matches, {group name: tag number})"""
    p, fl, gd = _parse(pattern, int(flags))
    names = sorted(gd) if names is None else list(names)
    if not all(nm in gd for nm in names): raise Unsupported("missing group")
    tags = {gd[nm]: k for k, nm in enumerate(names)}
    b = Builder(fl, tags, dec)
    f = b.seq(p, last=True)
    return determinize(b.n, f[0], frozenset([f[1]])), {nm: k for k, nm in enumerate(names)}


TABLE: dict = {}      # key -> DFA


def lang_key(pattern, flags=0, mode="fullmatch"):
    d = lang(pattern, int(flags), mode)
    k = "L" + d.digest()
    TABLE[k] = d
    return k


def group_key(pattern, flags=0):
    """(key, names) of an unambiguous capturing pattern; Unsupported if a string has two taggings"""
    d, names = tagged(pattern, int(flags))
    k = "T" + d.digest()
    if k not in TABLE:
        if ambiguous(d) is not None: raise Unsupported("ambiguous capture groups")
        TABLE[k] = (d, names, re.compile(pattern, int(flags)))
    return k, names
