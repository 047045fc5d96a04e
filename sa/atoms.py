"""Abstract values: a value is a frozenset of atoms (a bounded disjunction)."""

from __future__ import annotations


class Atom:
    __slots__ = ("key", "_h")

    def __init__(self, *key):
        self.key = (self.__class__.__name__,) + key
        self._h = hash(self.key)

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other or (isinstance(other, Atom) and self._h == other._h and self.key == other.key)

    def __repr__(self):
        return f"{self.key[0]}{self.key[1:]!r}"


class Addr(int):
    """A heap address: an interned tuple (site, kind, context, tag, ...) known by its number, which hashes fast."""

    def __getitem__(self, i):
        return ADDR_KEYS[self][i]

    def __add__(self, more):
        return make_addr(ADDR_KEYS[self] + more)

    def __repr__(self):
        return repr(ADDR_KEYS[self])

    __str__ = __repr__


ADDR_KEYS = [None]
_addrs = {}


def make_addr(key):
    a = _addrs.get(key)
    if a is None:
        a = _addrs[key] = Addr(len(ADDR_KEYS))
        ADDR_KEYS.append(key)
    return a


class Top(Atom):
    """Unknown value: never the ground of an alarm."""

    def __repr__(self):
        return "TOP"


class C(Atom):
    """A constant."""

    def __init__(self, v):
        super().__init__(type(v).__name__, v)

    @property
    def v(self):
        return self.key[2]

    @property
    def t(self):
        return self.key[1]

    def __repr__(self):
        return f"C({self.v!r})"


class S(Atom):
    """Unknown text.

    ci: known up to letter case; ml: 0 = may be empty, None = emptiness unknown, n = at least n;
    has: substrings certainly contained; taint: labels; cls: qualified class for str subclasses;
    lang: language handle (opaque, see rx.Lang) or None; other: differs from every constant it is
    compared with (an unregistered name).
    """

    def __init__(self, ci=None, ml=0, has=frozenset(), taint=frozenset(), lang=None, cls=None,
                 other=False, mx=None, sym=None):
        super().__init__(ci, ml, has, taint, lang, cls, other, mx, sym)

    ci = property(lambda s: s.key[1])
    ml = property(lambda s: s.key[2])
    has = property(lambda s: s.key[3])
    taint = property(lambda s: s.key[4])
    lang = property(lambda s: s.key[5])
    cls = property(lambda s: s.key[6])
    other = property(lambda s: s.key[7])
    mx = property(lambda s: s.key[8])
    sym = property(lambda s: s.key[9])

    def but(self, **kw):
        d = dict(ci=self.ci, ml=self.ml, has=self.has, taint=self.taint, lang=self.lang,
                 cls=self.cls, other=self.other, mx=self.mx, sym=self.sym)
        d.update(kw)
        return S(**d)

    def __repr__(self):
        bits = []
        for n in ("ci", "ml", "has", "taint", "lang", "cls", "other", "mx", "sym"):
            v = getattr(self, n)
            if v or (n == "ml" and v is None):
                bits.append(f"{n}={set(v) if isinstance(v, frozenset) else v}")
        return f"S({','.join(bits)})"


class B(Atom):
    """Unknown bytes."""

    def __init__(self, ci=None, ml=0, taint=frozenset(), other=False, sym=None, mx=None):
        super().__init__(ci, ml, taint, other, sym, mx)

    ci = property(lambda s: s.key[1])
    ml = property(lambda s: s.key[2])
    taint = property(lambda s: s.key[3])
    other = property(lambda s: s.key[4])
    sym = property(lambda s: s.key[5])
    mx = property(lambda s: s.key[6])

    def but(self, **kw):
        d = dict(ci=self.ci, ml=self.ml, taint=self.taint, other=self.other, sym=self.sym, mx=self.mx)
        d.update(kw)
        return B(**d)


class I(Atom):
    """Integer interval; lin: tuple of (symbol, coefficient) plus constant for linear tracking.
    big: may be so large that float conversion or date arithmetic overflows.
    An interval of one number is that constant."""

    def __new__(cls, lo=None, hi=None, lin=None, big=False):
        if lo is not None and lo == hi and lin is None:
            return C(lo)
        return super().__new__(cls)

    def __init__(self, lo=None, hi=None, lin=None, big=False):
        super().__init__(lo, hi, lin, big)

    lo = property(lambda s: s.key[1])
    hi = property(lambda s: s.key[2])
    lin = property(lambda s: s.key[3])
    big = property(lambda s: s.key[4])


class F(Atom):
    """Unknown float. z: zero is known to be excluded; cn: may hold numbers the caller did not bound."""

    def __init__(self, pos=False):
        super().__init__(pos)

    pos = property(lambda s: s.key[1])


class T(Atom):
    """Tuple of known arity."""

    def __init__(self, elems):
        super().__init__(tuple(elems))

    elems = property(lambda s: s.key[1])


class TN(Atom):
    """Tuple of unknown arity. lo: minimum length (None unknown)."""

    def __init__(self, elem, lo=None):
        super().__init__(elem, lo)

    elem = property(lambda s: s.key[1])
    lo = property(lambda s: s.key[2])


class R(Atom):
    """Reference to a heap object."""

    def __init__(self, addr):
        super().__init__(addr)

    addr = property(lambda s: s.key[1])

    def __repr__(self):
        return f"R({self.addr})"


class W(Atom):
    """Weak proxy to a heap object."""

    def __init__(self, addr):
        super().__init__(addr)

    addr = property(lambda s: s.key[1])


class WR(Atom):
    """weakref.ref object: calling it gives the target (or None)."""

    def __init__(self, addr):
        super().__init__(addr)

    addr = property(lambda s: s.key[1])


class Fn(Atom):
    """Function of the analysed program. fid indexes Engine.fns; env is the closure environment."""

    def __init__(self, fid, env=None, defaults=(), kwdefaults=()):
        super().__init__(fid, env, tuple(defaults), tuple(kwdefaults))

    fid = property(lambda s: s.key[1])
    env = property(lambda s: s.key[2])
    defaults = property(lambda s: s.key[3])
    kwdefaults = property(lambda s: s.key[4])


class BM(Atom):
    """Bound method: self value + function atom."""

    def __init__(self, slf, fn):
        super().__init__(slf, fn)

    slf = property(lambda s: s.key[1])
    fn = property(lambda s: s.key[2])


class XM(Atom):
    """Method of a builtin / external value: (receiver atom, method name)."""

    def __init__(self, recv, name):
        super().__init__(recv, name)

    recv = property(lambda s: s.key[1])
    name = property(lambda s: s.key[2])


class Partial(Atom):
    def __init__(self, fn, args, kwargs):
        super().__init__(fn, tuple(args), tuple(sorted(kwargs)))

    fn = property(lambda s: s.key[1])
    args = property(lambda s: s.key[2])
    kwargs = property(lambda s: s.key[3])


class Cls(Atom):
    """Class of the analysed program, by qualified name."""

    def __init__(self, qual):
        super().__init__(qual)

    qual = property(lambda s: s.key[1])


class Mod(Atom):
    def __init__(self, name):
        super().__init__(name)

    name = property(lambda s: s.key[1])


class Ext(Atom):
    """External (library) function, class, module or constant by dotted path."""

    def __init__(self, path):
        super().__init__(path)

    path = property(lambda s: s.key[1])


class EI(Atom):
    """Instance of an external class: type path + optional immutable payload."""

    def __init__(self, typ, payload=None):
        super().__init__(typ, payload)

    typ = property(lambda s: s.key[1])
    payload = property(lambda s: s.key[2])


class GA(Atom):
    """Generic alias: origin atom + args."""

    def __init__(self, origin, args):
        super().__init__(origin, tuple(args))

    origin = property(lambda s: s.key[1])
    args = property(lambda s: s.key[2])


class EnumM(Atom):
    def __init__(self, cls, name, value):
        super().__init__(cls, name, value)

    cls = property(lambda s: s.key[1])
    name = property(lambda s: s.key[2])
    value = property(lambda s: s.key[3])


class Prop(Atom):
    def __init__(self, fget, fset=None):
        super().__init__(fget, fset)

    fget = property(lambda s: s.key[1])
    fset = property(lambda s: s.key[2])


class SM(Atom):
    def __init__(self, fn):
        super().__init__(fn)

    fn = property(lambda s: s.key[1])


class CM(Atom):
    def __init__(self, fn):
        super().__init__(fn)

    fn = property(lambda s: s.key[1])


class Super(Atom):
    def __init__(self, cls, slf):
        super().__init__(cls, slf)

    cls = property(lambda s: s.key[1])
    slf = property(lambda s: s.key[2])


class J(Atom):
    """Arbitrary JSON value, except of the kinds in `no` (null, bool, int, float, str, list, dict)."""

    def __init__(self, no=frozenset()):
        super().__init__(no)

    no = property(lambda s: s.key[1])


TOP = Top()
NONE = C(None)
TRUE = C(True)
FALSE = C(False)
VTOP = frozenset([TOP])
VNONE = frozenset([NONE])
VTRUE = frozenset([TRUE])
VFALSE = frozenset([FALSE])
VBOOL = frozenset([TRUE, FALSE])
EMPTY = frozenset()
HAZ = frozenset(["lt", "bt", "nl", "cr"])  # see md.py
WIRE = HAZ | {"wire"}
JSONT = WIRE | {"json"}
SFKEY = frozenset(["wire", "ascii"])
SFTEXT = SFKEY | {"lt", "bt"}
SFTOKEN = SFKEY | {"bt"}


def V(*atoms):
    return frozenset(atoms)


def Cv(v):
    return frozenset([C(v)])


MAXSTR = 48
MAXTUP = 200
MAXINT = 48


def ilo(a, b):
    return None if a is None or b is None else min(a, b)


def ihi(a, b):
    return None if a is None or b is None else max(a, b)


def join_ml(a, b):
    """0 dominates (a witness for emptiness exists), then unknown."""
    if a == 0 or b == 0:
        return 0
    if a is None or b is None:
        return None
    return min(a, b)


def joinS(a, b):
    if a == b:
        return a
    return S(
        ci=a.ci if a.ci == b.ci else None,
        ml=join_ml(a.ml, b.ml),
        has=a.has & b.has,
        taint=a.taint | b.taint,
        lang=a.lang if a.lang == b.lang else None,
        cls=a.cls,
        other=a.other and b.other,
        mx=None if a.mx is None or b.mx is None else max(a.mx, b.mx),
        sym=a.sym if a.sym == b.sym else None,
    )


def str_atom(v, taint=frozenset()):
    """Abstract a constant string (loses its value)."""
    return S(ml=len(v), mx=len(v), taint=taint)


def norm(v, widen=False):
    """Bound a value set."""
    if len(v) <= 1:
        return v
    strs = {}
    cis = 0
    cstr = []
    cint = []
    ints = []
    tups = {}
    floats = []
    bys = []
    out = []
    fns = {}
    for a in v:
        k = a.__class__
        if k is S:
            if a.ci is not None or a.other:
                cis += 1
                out.append(a)
            else:
                strs.setdefault(a.cls, []).append(a)
        elif k is C:
            if a.t == "str":
                cstr.append(a)
            elif a.t == "int":
                cint.append(a)
            else:
                out.append(a)
        elif k is I:
            ints.append(a)
        elif k is F:
            floats.append(a)
        elif k is B:
            if a.ci is not None or a.other:
                out.append(a)
            else:
                bys.append(a)
        elif k is T:
            tups.setdefault(len(a.elems), []).append(a)
        elif k is Partial or k is BM:
            fns.setdefault((k, a.fn), []).append(a)
            out.append(a)
        else:
            out.append(a)
    for cls, lst in strs.items():
        a = lst[0]
        for b in lst[1:]:
            a = joinS(a, b)
        out.append(a)
    if len(cstr) > MAXSTR:
        a = None
        for b in cstr:
            s = str_atom(b.v)
            a = s if a is None else joinS(a, s)
        if None in strs:
            old = [x for x in out if x.__class__ is S and x.cls is None and x.ci is None and not x.other]
            for o in old:
                out.remove(o)
                a = joinS(a, o)
        out.append(a)
    else:
        out.extend(cstr)
    if ints or len(cint) > (4 if widen else MAXINT):
        lo = hi = None
        first = True
        lin = None
        big = False
        for x in ints + (cint if (len(cint) > (4 if widen else MAXINT)) else []):
            xl, xh, xlin, xb = (x.v, x.v, None, False) if x.__class__ is C else (x.lo, x.hi, x.lin, x.big)
            if first:
                lo, hi, lin, big = xl, xh, xlin, xb
                first = False
            else:
                lo, hi = ilo(lo, xl), ihi(hi, xh)
                big = big or xb
                if lin != xlin:
                    lin = None
        out.append(I(lo, hi, lin, big))
        if not len(cint) > (4 if widen else MAXINT):
            for x in cint:
                out.append(x)
    else:
        out.extend(cint)
    if floats:
        out.append(floats[0] if len(set(floats)) == 1 else F(all(f.pos for f in floats)))
    if bys:
        a = bys[0]
        for b in bys[1:]:
            a = B(None, join_ml(a.ml, b.ml), a.taint | b.taint, False, a.sym if a.sym == b.sym else None)
        out.append(a)
    for n, lst in tups.items():
        if len(lst) > 6 and len(lst) <= MAXTUP and not _keep_tuples(lst):
            lst = _group_tuples(n, lst)
        if len(lst) > MAXTUP or (len(lst) > 8 and not _keep_tuples(lst)):
            elems = []
            for i in range(n):
                e = frozenset().union(*[t.elems[i] for t in lst])
                elems.append(norm(e))
            out.append(T(elems))
        else:
            out.extend(lst)
    for (k, fn), lst in fns.items():
        if k is Partial and len(lst) > 1:
            wide = [a for a in lst if _wide_partial(a)]
            keep = lst
            if wide:
                keep = [a for a in lst if not any(b is not a and b != a and _partial_in(a, b) for b in wide)]
            if len(keep) > 8:
                m = join_partials(keep)
                if m is not None:
                    keep = [m]
            if keep is not lst:
                for a in lst:
                    out.remove(a)
                out.extend(keep)
    if len(out) > 600:
        return VTOP
    return frozenset(out)


def _wide_partial(a):
    return any(len(x) > 1 for x in a.args) or any(len(x) > 1 for _, x in a.kwargs)


def _partial_in(a, b):
    """Every value bound by a is among those bound by b."""
    if len(a.args) != len(b.args) or len(a.kwargs) != len(b.kwargs):
        return False
    for x, y in zip(a.args, b.args):
        if not (x <= y or norm(x | y) == y):
            return False
    for (k, x), (k2, y) in zip(a.kwargs, b.kwargs):
        if k != k2 or not (x <= y or norm(x | y) == y):
            return False
    return True


def join_partials(lst):
    a0 = lst[0]
    if any(len(a.args) != len(a0.args) or [k for k, _ in a.kwargs] != [k for k, _ in a0.kwargs] for a in lst):
        return None
    args = [norm(frozenset().union(*[a.args[i] for a in lst])) for i in range(len(a0.args))]
    kw = [
        (k, norm(frozenset().union(*[a.kwargs[i][1] for a in lst])))
        for i, (k, _) in enumerate(a0.kwargs)
    ]
    return Partial(a0.fn, args, kw)


def _group_tuples(n, lst):
    """Join tuples that agree on the kinds of everything after the first component."""
    groups = {}
    for t in lst:
        sig = tuple(frozenset((a.__class__, a.t if a.__class__ is C else None) for a in e) for e in t.elems[1:])
        head = frozenset(a if a.__class__ is Cls else (i, a.__class__) for i, e in enumerate(t.elems)
                         for a in e if not i or a.__class__ is Cls)
        groups.setdefault((head, sig), []).append(t)
    out = []
    for g in groups.values():
        if len(g) == 1:
            out.append(g[0])
        else:
            out.append(T([norm(frozenset().union(*[t.elems[i] for t in g])) for i in range(n)]))
    return out


def _keep_tuples(lst):
    """Keep tuples apart when their first element tells them apart (name/value pairs)."""
    loose = 0
    for t in lst:
        if not t.elems:
            return False
        if not _told_apart(t):
            loose += 1
    return loose <= 4


def _told_apart(t):
    if any(len(x) == 1 and next(iter(x)).__class__ is Cls for x in t.elems):
        return True
    if len(t.elems[0]) == 1:
        (a,) = t.elems[0]
        if a.__class__ in (S, B) and (a.ci is not None or a.other):
            return True
        if a.__class__ is Cls or (a.__class__ is C and a.t == "str"):
            return True
    for x in t.elems:
        # (number, (name, value)) and the like
        if len(x) == 1:
            (a,) = x
            if a.__class__ is T and a.elems and _told_apart(a):
                return True
    return False


def join(a, b):
    if a is b or a == b:
        return a
    if a <= b:
        return b
    if b <= a:
        return a
    return norm(a | b)


def joinall(vs):
    out = EMPTY
    for v in vs:
        out = join(out, v)
    return out


_NOREF = frozenset()
_vrefs = {}


def vrefs(v):
    """The addresses a value mentions (remembered per value)."""
    r = _vrefs.get(v)
    if r is None:
        acc = set()
        for a in v:
            atom_refs(a, acc)
        r = frozenset(acc) if acc else _NOREF
        if len(_vrefs) > 400000:
            _vrefs.clear()
        _vrefs[v] = r
    return r


def refs_of(v, acc):
    r = vrefs(v)
    if r:
        acc |= r


def atom_refs(a, acc):
    """Strong and weak addresses an atom mentions."""
    k = a.__class__
    if k is R or k is W or k is WR:
        acc.add(a.addr)
    elif k is T:
        for e in a.elems:
            refs_of(e, acc)
    elif k is TN:
        refs_of(a.elem, acc)
    elif k is Fn:
        if a.env is not None:
            acc.add(a.env)
        for d in a.defaults:
            refs_of(d, acc)
        for _, d in a.kwdefaults:
            refs_of(d, acc)
    elif k is BM:
        atom_refs(a.slf, acc)
        atom_refs(a.fn, acc)
    elif k is XM:
        atom_refs(a.recv, acc)
    elif k is Partial:
        atom_refs(a.fn, acc)
        for x in a.args:
            refs_of(x, acc)
        for _, x in a.kwargs:
            refs_of(x, acc)
    elif k is Super:
        atom_refs(a.slf, acc)
    elif k is EI:
        if isinstance(a.payload, frozenset):
            refs_of(a.payload, acc)
    elif k is Prop or k is SM or k is CM:
        pass


def subst(v, old, new):
    if old not in vrefs(v):
        return v
    return frozenset(atom_subst(a, old, new) for a in v)


def atom_subst(a, old, new):
    k = a.__class__
    if k is R:
        return R(new) if a.addr == old else a
    if k is W:
        return W(new) if a.addr == old else a
    if k is WR:
        return WR(new) if a.addr == old else a
    acc = set()
    atom_refs(a, acc)
    if old not in acc:
        return a
    if k is T:
        return T([subst(e, old, new) for e in a.elems])
    if k is TN:
        return TN(subst(a.elem, old, new), a.lo)
    if k is Fn:
        return Fn(a.fid, new if a.env == old else a.env, [subst(d, old, new) for d in a.defaults],
                  [(n, subst(d, old, new)) for n, d in a.kwdefaults])
    if k is BM:
        return BM(atom_subst(a.slf, old, new), atom_subst(a.fn, old, new))
    if k is XM:
        return XM(atom_subst(a.recv, old, new), a.name)
    if k is Partial:
        return Partial(atom_subst(a.fn, old, new), [subst(x, old, new) for x in a.args],
                       [(n, subst(x, old, new)) for n, x in a.kwargs])
    if k is Super:
        return Super(a.cls, atom_subst(a.slf, old, new))
    if k is EI and isinstance(a.payload, frozenset):
        return EI(a.typ, subst(a.payload, old, new))
    return a


def exc_class(payload):
    """The class named by the payload of an exception (which may say where decoding failed)."""
    return payload.split("@")[0] if isinstance(payload, str) else payload
