"""Regular-expression languages as automata, built from the parsed form of Python patterns.

The alphabet is a partition of representative characters: every code point up to 255 on its own (field
values are decoded as ASCII or ISO 8859-1), plus one representative for each way larger code points
differ (digit, letter, space, other, and the two that fold onto ASCII letters).
"""

from __future__ import annotations

import functools
import re
import unicodedata

try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:  # pragma: no cover
    import sre_parse, sre_constants as sre_c

EXTRA = ["\u0660", "\u0101", "\u2003", "\u20ac", "\u017f", "\u212a", "\u00df\u1e9e"[1]]
ALPHA = [chr(i) for i in range(256)] + EXTRA
NCH = len(ALPHA)
FULL = (1 << NCH) - 1
INDEX = {c: i for i, c in enumerate(ALPHA)}


class TooBig(Exception):
    pass


class Unsupported(Exception):
    pass


def mask(pred):
    m = 0
    for i, c in enumerate(ALPHA):
        if pred(c):
            m |= 1 << i
    return m


@functools.lru_cache(None)
def category(name, ascii_only):
    pat = {"CATEGORY_DIGIT": r"\d", "CATEGORY_NOT_DIGIT": r"\D", "CATEGORY_SPACE": r"\s", "CATEGORY_NOT_SPACE": r"\S",
           "CATEGORY_WORD": r"\w", "CATEGORY_NOT_WORD": r"\W"}[name]
    rx = re.compile(pat, re.A if ascii_only else 0)
    return mask(lambda c: rx.match(c) is not None)


@functools.lru_cache(None)
def folded(m):
    """Close a set under case-insensitive equality."""
    out = m
    chars = [c for i, c in enumerate(ALPHA) if m >> i & 1]
    low = set()
    for c in chars:
        low.add(c.lower())
        low.add(c.upper())
        if c in "\u017f":
            low.add("s")
        if c == "\u212a":
            low.add("k")
    for i, c in enumerate(ALPHA):
        if c in low or c.lower() in low or c.upper() in low or (c == "\u017f" and "s" in low) or (
                c == "\u212a" and "k" in low):
            out |= 1 << i
    return out


@functools.lru_cache(None)
def span(lo, hi):
    return mask(lambda c: lo <= ord(c) <= hi)


def in_mask(av, flags):
    neg = False
    m = 0
    for op, a in av:
        n = str(op)
        if n == "NEGATE":
            neg = True
        elif n == "LITERAL":
            m |= lit(a)
        elif n == "RANGE":
            lo, hi = a
            m |= span(lo, hi)
        elif n == "CATEGORY":
            m |= category(str(a), bool(flags & re.A))
        else:
            raise Unsupported(n)
    if flags & re.I:
        m = folded(m)
    return FULL & ~m if neg else m


def lit(code):
    c = chr(code)
    i = INDEX.get(c)
    if i is None:
        if code > 255:
            return 0  # a specific character outside the modelled ones
        raise Unsupported("literal")
    return 1 << i


class NFA:
    """eps: list of lists; tr: list of lists of (mask, target)."""

    def __init__(self):
        self.eps = []
        self.tr = []
        self.note = []
        self.start = self.state()
        self.final = self.state()
        self.approx = False

    def state(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1


MAXREP = 60


def build(sub, flags=0, end_anchor=True, look="eps"):
    """NFA of the strings a pattern consumes. Anchors are handled as position constraints."""
    n = NFA()
    _seq(n, list(sub), n.start, n.final, flags, look)
    if len(n.eps) > 60000:
        raise TooBig()
    return n


# Anchors become reserved edges: ("^",), ("$",), ("Z",) stored in eps with a tag list.
def _edge(n, a, m, b):
    n.tr[a].append((m, b))


def _seq(n, items, a, b, flags, look):
    cur = a
    for i, it in enumerate(items):
        nxt = b if i == len(items) - 1 else n.state()
        _item(n, it, cur, nxt, flags, look)
        cur = nxt
    if not items:
        n.eps[a].append(b)


def _item(n, it, a, b, flags, look):
    op, av = it
    k = str(op)
    if len(n.eps) > 60000:
        raise TooBig()
    if k == "LITERAL":
        m = lit(av)
        if flags & re.I:
            m = folded(m)
        _edge(n, a, m, b)
    elif k == "NOT_LITERAL":
        m = lit(av)
        if flags & re.I:
            m = folded(m)
        _edge(n, a, FULL & ~m, b)
    elif k == "ANY":
        _edge(n, a, FULL if flags & re.S else FULL & ~lit(10), b)
    elif k == "IN":
        _edge(n, a, in_mask(av, flags), b)
    elif k == "BRANCH":
        for alt in av[1]:
            x, y = n.state(), n.state()
            n.eps[a].append(x)
            _seq(n, list(alt), x, y, flags, look)
            n.eps[y].append(b)
    elif k == "SUBPATTERN":
        g, add, rem, p = av
        x, y = n.state(), n.state()
        n.eps[a].append(x)
        _seq(n, list(p), x, y, (flags | add) & ~rem, look)
        n.eps[y].append(b)
    elif k == "ATOMIC_GROUP":
        n.approx = True
        _seq(n, list(av), a, b, flags, look)
    elif k in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
        lo, hi, p = av
        if k == "POSSESSIVE_REPEAT":
            n.approx = True
        inf = hi is sre_c.MAXREPEAT or int(hi) > 100000
        lo = int(lo)
        if lo > MAXREP:
            lo, inf = MAXREP, True
            n.approx = True
        cur = a
        for _ in range(lo):
            x = n.state()
            y = n.state()
            n.eps[cur].append(x)
            _seq(n, list(p), x, y, flags, look)
            cur = y
        if inf:
            x, y, z = n.state(), n.state(), n.state()
            _seq(n, list(p), x, z, flags, look)
            n.eps[cur] += [x, y]
            n.eps[z] += [x, y]
            n.eps[y].append(b)
        else:
            hi = int(hi)
            if hi - lo > MAXREP:
                hi = lo + MAXREP
                n.approx = True
            n.eps[cur].append(b)
            for _ in range(hi - lo):
                x, y = n.state(), n.state()
                n.eps[cur].append(x)
                _seq(n, list(p), x, y, flags, look)
                n.eps[y].append(b)
                cur = y
    elif k == "AT":
        w = str(av)
        n.note.append(w)
        if w in ("AT_BEGINNING", "AT_BEGINNING_STRING"):
            n.tr[a].append(("^", b))
        elif w == "AT_END":
            n.tr[a].append(("$", b))
        elif w == "AT_END_STRING":
            n.tr[a].append(("Z", b))
        else:
            n.approx = True
            n.eps[a].append(b)
    elif k in ("ASSERT", "ASSERT_NOT"):
        n.approx = True
        n.eps[a].append(b)
    elif k == "FAILURE":
        pass
    else:
        raise Unsupported(k)


# ---------------------------------------------------------------- closures with anchors
def closure(n, states, at_start, at_end):
    """at_end: False, "nl" (only a final newline remains) or True."""
    seen = set(states)
    todo = list(states)
    while todo:
        q = todo.pop()
        for r in n.eps[q]:
            if r not in seen:
                seen.add(r)
                todo.append(r)
        for m, r in n.tr[q]:
            if isinstance(m, str) and r not in seen:
                if (m == "^" and at_start) or (m == "$" and at_end) or (m == "Z" and at_end is True):
                    seen.add(r)
                    todo.append(r)
    return seen


class DFA:
    """Complete DFA over character classes. classes: list of masks; trans[q][c]."""

    def __init__(self, classes, trans, acc, start=0):
        self.classes = classes
        self.trans = trans
        self.acc = acc
        self.start = start


def classes_of(masks):
    parts = [FULL]
    for m in set(masks):
        nxt = []
        for p in parts:
            x, y = p & m, p & ~m
            if x:
                nxt.append(x)
            if y:
                nxt.append(y)
        parts = nxt
    return parts


def determinize(n, mode="full", cap=6000, extra=()):
    """DFA of whole strings s for which the pattern applied with `mode` succeeds.

    mode: "full" (fullmatch), "match" (prefix), "search".
    """
    masks = [m for t in n.tr for m, _ in t if not isinstance(m, str)]
    classes = classes_of(masks + [lit(10)] + list(extra))
    NL = next(i for i, c in enumerate(classes) if c & lit(10))
    # a state is the set of NFA states *before* end anchors are resolved; a "pending" flag marks states reached
    # by assuming that a single final newline follows.
    start = frozenset(closure(n, [n.start], True, False))

    def ok_at_end(S, first):
        return n.final in closure(n, S, first, True)

    # configuration: (set, pend) where pend: set of states allowed only if the rest is exactly "\n"
    trans, acc = [], []
    ids = {}
    order = []

    def key(S, first, done):
        k = (S, first, done)
        if k not in ids:
            if len(ids) >= cap:
                raise TooBig()
            ids[k] = len(ids)
            order.append(k)
        return ids[k]

    key(start, True, False)
    i = 0
    while i < len(order):
        S, first, done = order[i]
        # done: True = already accepted whatever follows; "end"/"nl" handled through acc
        i += 1
        row = []
        accept = done is True or done == "nl-end" or ok_at_end(S, first)
        if mode in ("match", "search") and not done is True and n.final in S:
            accept = True
            done = True
        acc.append(accept)
        for ci, c in enumerate(classes):
            if done is True:
                row.append(key(frozenset(), False, True))
                continue
            nxt = set()
            for q in S:
                for m, r in n.tr[q]:
                    if not isinstance(m, str) and m & c:
                        nxt.add(r)
            d2 = False
            if ci == NL and S:
                # "$" just before a final newline
                C2 = closure(n, S, first, "nl")
                if n.final in C2 and mode in ("match", "search"):
                    d2 = "nl-end"
                # pattern consuming the newline after passing "$"
                for q in C2 - set(S):
                    for m, r in n.tr[q]:
                        if not isinstance(m, str) and m & c:
                            n2 = closure(n, [r], False, True)
                            if n.final in n2:
                                d2 = "nl-end"
            T_ = closure(n, nxt, False, False)
            if mode == "search":
                T_ |= closure(n, [n.start], False, False)
            row.append(key(frozenset(T_), False, d2))
        trans.append(row)
    return DFA(classes, trans, acc)


def _common(a, b):
    parts = []
    for x in a.classes:
        for y in b.classes:
            if x & y:
                parts.append(x & y)
    return parts


def _cls(d, c):
    for i, m in enumerate(d.classes):
        if m & c:
            return i
    raise KeyError


def product(a, b, want, cap=400000):
    """A shortest string on which want(acc_a, acc_b) holds, or None."""
    cl = [(c, _cls(a, c), _cls(b, c)) for c in _common(a, b)]
    # prefer printable witnesses
    cl.sort(key=lambda t: 0 if t[0] & PRINT else 1)
    seen = {(a.start, b.start): None}
    todo = [(a.start, b.start)]
    i = 0
    while i < len(todo):
        p = todo[i]
        i += 1
        if want(a.acc[p[0]], b.acc[p[1]]):
            out = []
            while seen[p] is not None:
                p, c = seen[p]
                out.append(pick(c))
            return "".join(reversed(out))
        for c, ca, cb in cl:
            q = (a.trans[p[0]][ca], b.trans[p[1]][cb])
            if q not in seen:
                if len(seen) > cap:
                    raise TooBig()
                seen[q] = (p, c)
                todo.append(q)
    return None


PRINT = mask(lambda c: 33 <= ord(c) <= 126)
ALNUM = mask(lambda c: c.isalnum() and ord(c) < 127)


def pick(m):
    for want in (m & ALNUM, m & PRINT, m):
        if want:
            return ALPHA[(want & -want).bit_length() - 1]
    return "?"


def not_included(a, b):
    """A string in a but not in b, or None."""
    return product(a, b, lambda x, y: x and not y)


def different(a, b):
    return product(a, b, lambda x, y: x != y)


def live(d):
    """States from which an accepting state is reachable, with the distance."""
    rev = {}
    for q, row in enumerate(d.trans):
        for r in row:
            rev.setdefault(r, set()).add(q)
    dist = {q: 0 for q, x in enumerate(d.acc) if x}
    todo = list(dist)
    i = 0
    while i < len(todo):
        q = todo[i]
        i += 1
        for p in rev.get(q, ()):
            if p not in dist:
                dist[p] = dist[q] + 1
                todo.append(p)
    return dist


WS = mask(lambda c: c.isspace())


def split_mins(d, sep, stripped=False):
    """For strings of d containing the character sep: (min length before the first sep, min length after it,
    whether some string has no sep, the characters that may stand before it and after it). With `stripped`, of the
    strings of d without outer white space."""
    s = lit(ord(sep))
    if stripped:
        # strings whose rest is white space end early; strings may start after white space
        acc = list(d.acc)
        changed = True
        while changed:
            changed = False
            for q, row in enumerate(d.trans):
                if not acc[q] and any(c & WS and acc[row[ci]] for ci, c in enumerate(d.classes)):
                    acc[q] = changed = True
        starts = [d.start]
        for q in starts:
            for ci, c in enumerate(d.classes):
                if c & WS and d.trans[q][ci] not in starts:
                    starts.append(d.trans[q][ci])
        d = DFA(d.classes, d.trans, acc, d.start)
    else:
        starts = [d.start]
    dist = live(d)
    depth = {q: 0 for q in starts}
    todo = list(starts)
    i = 0
    first = after = None
    nosep = False
    before = behind = 0
    rests = []
    while i < len(todo):
        q = todo[i]
        i += 1
        if d.acc[q]:
            nosep = True
        for ci, c in enumerate(d.classes):
            r = d.trans[q][ci]
            if r in dist:
                before |= c & ~s
            if c & s:
                if r in dist:
                    rests.append(r)
                    first = depth[q] if first is None else min(first, depth[q])
                    after = dist[r] if after is None else min(after, dist[r])
                c &= ~s
            if c and r not in depth and r in dist:
                depth[r] = depth[q] + 1
                todo.append(r)
    seen = set(rests)
    for q in rests:
        for ci, c in enumerate(d.classes):
            r = d.trans[q][ci]
            if r in dist:
                behind |= c
                if r not in seen:
                    seen.add(r)
                    rests.append(r)
    ws = WS & ~s

    def blank(roots, end):
        seen, todo = set(roots), list(roots)
        for q in todo:
            if end(q):
                return True
            for ci, c in enumerate(d.classes):
                r = d.trans[q][ci]
                if c & ws and r not in seen:
                    seen.add(r)
                    todo.append(r)
        return False

    rests = {r for q in seen_first(d, starts, s) for r in q}
    blank_first = blank(starts, lambda q: any(c & s and d.trans[q][ci] in dist for ci, c in enumerate(d.classes)))
    blank_after = blank(rests, lambda q: d.acc[q])
    return first, after, nosep, before, behind, blank_first, blank_after


def seen_first(d, starts, s):
    """The states after the first separator, by the state before it."""
    seen, todo = set(starts), list(starts)
    for q in todo:
        out = set()
        for ci, c in enumerate(d.classes):
            r = d.trans[q][ci]
            if c & s:
                out.add(r)
            if c & ~s and r not in seen:
                seen.add(r)
                todo.append(r)
        yield out


def parse(pattern, flags=0):
    return sre_parse.parse(pattern, flags)


def compile_dfa(pattern, flags=0, mode="full", cap=6000, extra=()):
    p = parse(pattern, flags)
    return determinize(build(p, p.state.flags), mode, cap, extra)


# ---------------------------------------------------------------- backtracking blow-up
def eps_free(n):
    """Useful states with multi-edges: {q: [(mask, r, ways)]} keeping how many epsilon routes lead there."""
    N = len(n.eps)
    # number of epsilon paths (capped at 2) from q to each r; loops of epsilons count as 2
    memo = {}

    def routes(q):
        if q in memo:
            return memo[q]
        cnt = {q: 1}
        # DFS over simple epsilon paths with cap
        out = {}
        stack = [(q, frozenset([q]))]
        steps = 0
        while stack:
            x, path = stack.pop()
            steps += 1
            if steps > 20000:
                raise TooBig()
            out[x] = min(2, out.get(x, 0) + 1)
            nxt = list(n.eps[x]) + [r for m, r in n.tr[x] if isinstance(m, str)]
            for r in nxt:
                if r not in path:
                    stack.append((r, path | {r}))
        memo[q] = out
        return out

    useful = {n.start}
    edges = {}
    todo = [n.start]
    while todo:
        q = todo.pop()
        lst = {}
        for x, w in routes(q).items():
            for m, r in n.tr[x]:
                if isinstance(m, str):
                    continue
                k = (m, r)
                lst[k] = min(2, lst.get(k, 0) + w)
        edges[q] = [(m, r, w) for (m, r), w in lst.items()]
        for (m, r) in lst:
            if r not in useful:
                useful.add(r)
                todo.append(r)
    return edges


def sccs(graph, roots):
    index, low, onst, st, out = {}, {}, set(), [], []
    cnt = [0]
    for root in roots:
        if root in index:
            continue
        work = [(root, iter(graph(root)))]
        index[root] = low[root] = cnt[0]
        cnt[0] += 1
        st.append(root)
        onst.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in index:
                    index[w] = low[w] = cnt[0]
                    cnt[0] += 1
                    st.append(w)
                    onst.add(w)
                    work.append((w, iter(graph(w))))
                    adv = True
                    break
                if w in onst:
                    low[v] = min(low[v], index[w])
            if adv:
                continue
            work.pop()
            if work:
                u = work[-1][0]
                low[u] = min(low[u], low[v])
            if low[v] == index[v]:
                comp = []
                while True:
                    w = st.pop()
                    onst.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                out.append(comp)
    return out


def exponential(n, cap=4_000_000):
    """A state at which one string can be matched in two different ways around a loop, or None."""
    e = eps_free(n)
    # only states on cycles matter: work inside each strongly connected component
    comps = sccs(lambda q: [r for _, r, _ in e[q]], list(e))
    work = 0
    for comp in comps:
        cs = set(comp)
        inner = {q: [(m, r, w) for m, r, w in e[q] if r in cs] for q in comp}
        if not any(inner.values()):
            continue
        # an edge that can be taken in two ways inside a loop
        for q in comp:
            for m, r, w in inner[q]:
                if w > 1:
                    return ("dup", m)
        # product restricted to the component
        def succ(p):
            a, b = p
            res = []
            for m1, r1, _ in inner[a]:
                for m2, r2, _ in inner[b]:
                    if m1 & m2:
                        res.append((r1, r2))
            return res
        work += len(comp) ** 2
        if work > cap:
            raise TooBig()
        for pc in sccs(succ, [(q, q) for q in comp]):
            diag = any(a == b for a, b in pc)
            off = [x for x in pc if x[0] != x[1]]
            if diag and off:
                a, b = off[0]
                m = 0
                for m1, r1, _ in inner[a]:
                    for m2, r2, _ in inner[b]:
                        m |= m1 & m2
                return ("loop", m)
            # two different edges with a common character from the same state back to it
        for q in comp:
            es = inner[q]
            for i in range(len(es)):
                for j in range(i + 1, len(es)):
                    if es[i][1] != es[j][1] and es[i][0] & es[j][0]:
                        pass
    return None


def compile_pair(a, b):
    """The intersection of two automata, as a DFA."""
    parts = _common(a, b)
    cl = [(c, _cls(a, c), _cls(b, c)) for c in parts]
    index = {(a.start, b.start): 0}
    todo = [(a.start, b.start)]
    trans, acc = [], []
    i = 0
    while i < len(todo):
        p = todo[i]
        i += 1
        acc.append(a.acc[p[0]] and b.acc[p[1]])
        row = []
        for _, ca, cb in cl:
            q = (a.trans[p[0]][ca], b.trans[p[1]][cb])
            if q not in index:
                if len(index) > 400000:
                    raise TooBig()
                index[q] = len(index)
                todo.append(q)
            row.append(index[q])
        trans.append(row)
    return DFA(parts, trans, acc)
