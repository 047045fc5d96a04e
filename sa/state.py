"""Abstract heap objects and program states."""

from __future__ import annotations

from .atoms import EMPTY, VTOP, join, joinall, norm, refs_of, subst, vrefs, TOP, C, I, T


class HObj:
    """Base of (immutable) heap objects."""

    __slots__ = ("_refs", "many")

    def refs(self):
        r = getattr(self, "_refs", None)
        if r is None:
            acc = set()
            for v in self.values():
                refs_of(v, acc)
            r = frozenset(acc)
            self._refs = r
        return r


class Obj(HObj):
    """Instance, class namespace, module namespace or closure environment.

    attrs: name -> (V, maybe_absent)."""

    __slots__ = ("cls", "attrs", "extra")

    def __init__(self, cls, attrs=None, many=False, extra=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.many = many
        self.extra = extra  # e.g. UserDict payload / havoc flag

    def values(self):
        return [v for v, _ in self.attrs.values()]

    def set(self, name, v, weak=False):
        a = dict(self.attrs)
        if weak and name in a:
            a[name] = (join(a[name][0], v), a[name][1])
        elif weak:
            a[name] = (v, True)
        else:
            a[name] = (v, False)
        return Obj(self.cls, a, self.many, self.extra)

    def unset(self, name):
        a = dict(self.attrs)
        a.pop(name, None)
        return Obj(self.cls, a, self.many, self.extra)

    def join(self, o):
        if o is self:
            return self
        if not isinstance(o, Obj):
            return Unknown(self.many or o.many)
        a = {}
        for n, (v, m) in self.attrs.items():
            if n in o.attrs:
                v2, m2 = o.attrs[n]
                a[n] = (join(v, v2), m or m2)
            else:
                a[n] = (v, True)
        for n, (v, m) in o.attrs.items():
            if n not in self.attrs:
                a[n] = (v, True)
        return Obj(self.cls if self.cls == o.cls else None, a, self.many or o.many,
                   self.extra or o.extra)

    def subst(self, old, new):
        return Obj(self.cls, {n: (subst(v, old, new), m) for n, (v, m) in self.attrs.items()},
                   self.many, self.extra)

    def eq(self, o):
        return (isinstance(o, Obj) and self.cls == o.cls and self.many == o.many
                and self.attrs == o.attrs and self.extra == o.extra)

    def widen(self, o):
        return self.join(o)


def mark(v):
    """A constant, or the constant a pair starts with: what is remembered of a list's members."""
    if len(v) == 1:
        (a,) = v
        if a.__class__ is C and a.t == "str":
            return a
        if a.__class__ is T and len(a.elems) == 2 and len(a.elems[0]) == 1:
            (k,) = a.elems[0]
            if k.__class__ is C and k.t == "str":
                return ("pair", k)
    return None


class ListO(HObj):
    """List (or deque-like). exact: tuple of V when the contents are known element by element.

    lo: certain minimum length; may_lo: a length this small can really occur (None: unknown);
    unord: order comes from hash order."""

    __slots__ = ("exact", "elem", "lo", "hi", "unord", "sure", "has")

    def __init__(self, exact=None, elem=EMPTY, lo=0, hi=None, unord=None, many=False, sure=True, has=frozenset()):
        self.has = has  # what the list certainly contains: see mark(); only for lists that aren't exact
        self.exact = tuple(exact) if exact is not None else None
        if exact is not None:
            lo = hi = len(self.exact)
            elem = joinall(self.exact)
        self.elem = elem
        self.lo = lo
        self.hi = hi
        self.unord = unord
        self.many = many
        self.sure = sure  # the minimum length is a real possibility, not an analysis artefact

    def values(self):
        return list(self.exact) + [self.elem] if self.exact is not None else [self.elem]

    def join(self, o):
        if o is self:
            return self
        if not isinstance(o, ListO):
            return Unknown(self.many or o.many)
        ex = None
        if self.exact is not None and o.exact is not None and len(self.exact) == len(o.exact):
            ex = [join(x, y) for x, y in zip(self.exact, o.exact)]
        lo = min(self.lo, o.lo)
        sure = (self.sure if self.lo == lo else False) or (o.sure if o.lo == lo else False)
        return ListO(ex, join(self.elem, o.elem), lo,
                     None if self.hi is None or o.hi is None else max(self.hi, o.hi),
                     self.unord or o.unord, self.many or o.many, sure, self.certain() & o.certain())

    def certain(self):
        if self.exact is None or self.many:
            return self.has
        return frozenset(m for m in map(mark, self.exact) if m is not None)

    def widen(self, o):
        j = self.join(o)
        if isinstance(j, ListO) and j.exact is None and j.hi is not None:
            j = ListO(None, j.elem, j.lo, None, j.unord, j.many, j.sure, j.has)
        return j

    def subst(self, old, new):
        return ListO([subst(v, old, new) for v in self.exact] if self.exact is not None else None,
                     subst(self.elem, old, new), self.lo, self.hi, self.unord, self.many, self.sure, self.has)

    def eq(self, o):
        return (isinstance(o, ListO) and self.exact == o.exact and self.elem == o.elem
                and self.lo == o.lo and self.hi == o.hi and self.unord == o.unord
                and self.many == o.many and self.sure == o.sure and self.has == o.has)

    def but(self, **kw):
        d = dict(exact=self.exact, elem=self.elem, lo=self.lo, hi=self.hi, unord=self.unord,
                 many=self.many, sure=self.sure, has=self.has)
        if kw.keys() & {"exact", "elem"}:
            d["has"] = frozenset()
        d.update(kw)
        return ListO(**d)


class SetO(HObj):
    """Set. exact: frozenset of atoms when known; else elem + lo/hi."""

    __slots__ = ("exact", "elem", "lo", "hi", "sure")

    def __init__(self, exact=None, elem=EMPTY, lo=0, hi=None, many=False, sure=True):
        self.exact = exact
        if exact is not None:
            elem = frozenset(exact)
            lo = hi = len(exact)
        self.elem = elem
        self.lo = lo
        self.hi = hi
        self.many = many
        self.sure = sure

    def values(self):
        return [self.elem]

    def join(self, o):
        if o is self:
            return self
        if not isinstance(o, SetO):
            return Unknown(self.many or o.many)
        if self.exact is not None and self.exact == o.exact:
            return SetO(self.exact, many=self.many or o.many)
        return SetO(None, join(self.elem, o.elem), min(self.lo, o.lo),
                    None if self.hi is None or o.hi is None else max(self.hi, o.hi),
                    self.many or o.many, self.sure and o.sure)

    def widen(self, o):
        j = self.join(o)
        if isinstance(j, SetO) and j.exact is None and j.hi is not None:
            j = SetO(None, j.elem, j.lo, None, j.many, j.sure)
        return j

    def subst(self, old, new):
        return SetO(None, subst(self.elem, old, new), self.lo, self.hi, self.many, self.sure) \
            if self.exact is None else self

    def eq(self, o):
        return (isinstance(o, SetO) and self.exact == o.exact and self.elem == o.elem
                and self.lo == o.lo and self.hi == o.hi and self.many == o.many)


class DictO(HObj):
    """Dict. ent: singleton-atom key -> (V, maybe_absent); okey/oval: other, unknown keys."""

    __slots__ = ("ent", "okey", "oval", "dflt", "cls", "sure")

    def __init__(self, ent=None, okey=EMPTY, oval=EMPTY, dflt=None, many=False, cls=None, sure=True):
        self.ent = ent if ent is not None else {}
        self.okey = okey
        self.oval = oval
        self.dflt = dflt
        self.many = many
        self.cls = cls
        self.sure = sure

    def values(self):
        out = [v for v, _ in self.ent.values()]
        for k in self.ent:
            if not isinstance(k, C):
                out.append(frozenset([k]))
        out.append(self.okey)
        out.append(self.oval)
        if self.dflt is not None:
            out.append(self.dflt)
        return out

    def but(self, **kw):
        d = dict(ent=self.ent, okey=self.okey, oval=self.oval, dflt=self.dflt, many=self.many,
                 cls=self.cls, sure=self.sure)
        d.update(kw)
        return DictO(**d)

    def join(self, o):
        if o is self:
            return self
        if not isinstance(o, DictO):
            return Unknown(self.many or o.many)
        ent = {}
        for k, (v, m) in self.ent.items():
            if k in o.ent:
                v2, m2 = o.ent[k]
                ent[k] = (join(v, v2), m or m2)
            else:
                ent[k] = (v, True)
        for k, (v, m) in o.ent.items():
            if k not in self.ent:
                ent[k] = (v, True)
        d = self.dflt if o.dflt is None else (o.dflt if self.dflt is None else join(self.dflt, o.dflt))
        return DictO(ent, join(self.okey, o.okey), join(self.oval, o.oval), d, self.many or o.many,
                     self.cls, self.sure and o.sure)

    def widen(self, o):
        return self.join(o)

    def subst(self, old, new):
        return DictO({k: (subst(v, old, new), m) for k, (v, m) in self.ent.items()},
                     subst(self.okey, old, new), subst(self.oval, old, new),
                     subst(self.dflt, old, new) if self.dflt is not None else None, self.many,
                     self.cls, self.sure)

    def eq(self, o):
        return (isinstance(o, DictO) and self.ent == o.ent and self.okey == o.okey
                and self.oval == o.oval and self.many == o.many and self.dflt == o.dflt)

    def allkeys(self):
        v = self.okey
        ks = frozenset(self.ent)
        return join(ks, v) if v else norm(ks)

    def allvals(self):
        return join(joinall([v for v, _ in self.ent.values()]), self.oval)

    def lo(self):
        return sum(1 for _, m in self.ent.values() if not m)

    def hi(self):
        return None if self.okey else len(self.ent)


class Unknown(HObj):
    """An object nothing is known about."""

    __slots__ = ()

    def __init__(self, many=False):
        self.many = many

    def values(self):
        return []

    def join(self, o):
        return self

    def widen(self, o):
        return self

    def subst(self, old, new):
        return self

    def eq(self, o):
        return isinstance(o, Unknown)


class ExtO(HObj):
    """Mutable instance of a library class, with named abstract fields."""

    __slots__ = ("typ", "attrs")

    def __init__(self, typ, attrs=None, many=False):
        self.typ = typ
        self.attrs = attrs if attrs is not None else {}
        self.many = many

    def values(self):
        return list(self.attrs.values())

    def set(self, n, v):
        a = dict(self.attrs)
        a[n] = v
        return ExtO(self.typ, a, self.many)

    def join(self, o):
        if o is self:
            return self
        if not isinstance(o, ExtO) or o.typ != self.typ:
            return Unknown(self.many or o.many)
        a = dict(self.attrs)
        for n, v in o.attrs.items():
            a[n] = join(a[n], v) if n in a else v
        return ExtO(self.typ, a, self.many or o.many)

    def widen(self, o):
        return self.join(o)

    def subst(self, old, new):
        return ExtO(self.typ, {n: subst(v, old, new) for n, v in self.attrs.items()}, self.many)

    def eq(self, o):
        return isinstance(o, ExtO) and self.typ == o.typ and self.attrs == o.attrs and self.many == o.many


class Rec:
    """What a call looked at: addresses read or written, addresses allocated first, and outside objects it moved."""

    __slots__ = ("touch", "alloc", "ext")

    def __init__(self):
        self.touch = set()
        self.alloc = set()
        self.ext = set()  # outside objects that were moved aside

    def add(self, addr):
        if addr not in self.alloc:
            self.touch.add(addr)


REC = [None]


class State:
    """locals: current frame (name -> V); up: frames of the callers; heap: address -> HObj."""

    __slots__ = ("locals", "up", "heap", "base", "trace", "dead")

    def __init__(self, locals_=None, up=(), heap=None, base=None, trace=()):
        self.locals = locals_ if locals_ is not None else {}
        self.up = up
        self.heap = heap if heap is not None else {}
        self.base = base
        self.trace = trace

    def fork(self):
        return State(dict(self.locals), self.up, dict(self.heap), self.base, self.trace)

    def get(self, addr):
        r = REC[0]
        if r is not None and addr not in r.alloc:
            r.touch.add(addr)
        o = self.heap.get(addr)
        if o is None and self.base is not None:
            o = self.base.get(addr)
        return o

    def put(self, addr, obj):
        r = REC[0]
        if r is not None and addr not in r.alloc:
            r.touch.add(addr)
        self.heap[addr] = obj

    def peek(self, addr):
        o = self.heap.get(addr)
        if o is None and self.base is not None:
            o = self.base.get(addr)
        return o

    def references(self, addr):
        for v in self.locals.values():
            if addr in vrefs(v):
                return True
        for fr in self.up:
            for v in fr.values():
                if addr in vrefs(v):
                    return True
        for a, o in self.heap.items():
            try:
                r = o._refs
            except AttributeError:
                r = o.refs()
            if r and addr in r and a != addr:
                return True
        return False

    def rename(self, old, new):
        self.locals = {n: subst(v, old, new) for n, v in self.locals.items()}
        self.up = tuple({n: subst(v, old, new) for n, v in fr.items()} for fr in self.up)
        for a, o in list(self.heap.items()):
            try:
                r = o._refs
            except AttributeError:
                r = o.refs()
            if r and old in r:
                self.heap[a] = o.subst(old, new)


def jvals(a, b, widen):
    if a is b or a == b:
        return a
    j = join(a, b)
    if widen:
        ints = [x for x in j if isinstance(x, C) and x.t == "int"]
        newi = [x for x in j if isinstance(x, I) and x not in a]
        if newi:
            # widen unstable bounds
            olds = [x for x in a if isinstance(x, I)]
            out = [x for x in j if not isinstance(x, I)]
            for n in newi:
                if olds:
                    lo = n.lo if all(o.lo is not None and n.lo is not None and n.lo >= o.lo for o in olds) else None
                    hi = n.hi if all(o.hi is not None and n.hi is not None and n.hi <= o.hi for o in olds) else None
                    if lo is None and n.lo is not None and n.lo >= 0:
                        lo = 0
                    out.append(I(lo, hi, None, n.big))
                else:
                    out.append(I(n.lo if n.lo is not None and n.lo >= 0 else None, None, None, n.big))
            j = norm(frozenset(out))
        elif len(ints) > 3 and any(x not in a for x in ints):
            lo = min(x.v for x in ints)
            out = [x for x in j if not (isinstance(x, C) and x.t == "int")]
            out.append(I(lo if lo >= 0 else None, None))
            j = norm(frozenset(out))
    return j


def join_states(a, b, widen=False):
    if a is b:
        return a
    loc = {}
    al, bl = a.locals, b.locals
    if al is not bl:
        for n, v in al.items():
            w = bl.get(n)
            if w is None:
                loc[n] = join(v, UNB)
            elif w is v:
                loc[n] = v
            else:
                loc[n] = jvals(v, w, widen)
        for n, w in bl.items():
            if n not in al:
                loc[n] = join(w, UNB)
    else:
        loc = dict(al)
    if a.up is b.up:
        up = a.up
    else:
        up = tuple(_join_frames(x, y) for x, y in zip(a.up, b.up))
    ah, bh = a.heap, b.heap
    heap = {}
    if len(ah) >= len(bh):
        heap.update(bh)
        heap.update(ah)
    else:
        heap.update(ah)
        heap.update(bh)
    base = a.base
    for ad, o in ah.items():
        p = bh.get(ad)
        if p is o:
            continue
        if p is None:
            if base is not None and ad in base:
                p = base[ad]
            else:
                heap[ad] = o
                continue
        if p is o or p.eq(o):
            heap[ad] = o
            continue
        if o.__class__ is ListO and p.__class__ is ListO and (o.hi == 0) != (p.hi == 0):
            # a list that one of the states no longer uses does not blur the other's
            ra, rb = a.references(ad), b.references(ad)
            if ra != rb:
                heap[ad] = o if ra else p
                continue
        heap[ad] = o.widen(p) if widen else o.join(p)
    if base is not None:
        for ad, p in bh.items():
            if ad not in ah and ad in base:
                o = base[ad]
                heap[ad] = o if o.eq(p) else (o.widen(p) if widen else o.join(p))
    tr = a.trace if a.trace == b.trace else _common(a.trace, b.trace)
    return State(loc, up, heap, base, tr)


def _common(a, b):
    """Facts that hold in both (trace holds ghost facts as a frozenset or tuple)."""
    if isinstance(a, frozenset) and isinstance(b, frozenset):
        return a & b
    return ()


def _join_frames(x, y):
    if x is y:
        return x
    out = {}
    for n, v in x.items():
        w = y.get(n)
        out[n] = v if w is v else (join(v, UNB) if w is None else join(v, w))
    for n, w in y.items():
        if n not in x:
            out[n] = join(w, UNB)
    return out


class _Unbound(C):
    def __init__(self):
        from .atoms import Atom

        Atom.__init__(self, "<unbound>", None)

    def __repr__(self):
        return "UNBOUND"


UNBOUND = _Unbound()
UNB = frozenset([UNBOUND])


def same_state(a, b):
    if a.locals != b.locals:
        return False
    if a.up is not b.up and a.up != b.up:
        return False
    if a.trace != b.trace:
        return False
    ah, bh = a.heap, b.heap
    if len(ah) != len(bh):
        return False
    for ad, o in ah.items():
        p = bh.get(ad)
        if p is None:
            return False
        if p is not o and not p.eq(o):
            return False
    return True


def sig(st, v):
    """Partition signature of a value: keeps None-ness, booleans and emptiness apart."""
    n = 0
    other = 0
    for a in v:
        if a.__class__ is C:
            if a.v is None:
                n |= 1
                continue
            if a.t == "bool":
                n |= 2 if a.v else 4
                continue
        elif a.__class__ is _Unbound:
            n |= 8
            continue
        other = 1
    return n * 2 + other
