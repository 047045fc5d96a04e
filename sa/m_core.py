"""Models of the library surface the analysed program uses: registry and shared helpers."""

from __future__ import annotations

from .atoms import *
from .state import DictO, ExtO, ListO, Obj, SetO, UNBOUND, Unknown

EXT = {}
INTRINSICS = set()

EXC_PARENTS = {
    "http_sf.StructuredFieldError": "ValueError",
    "http_sf.util.StructuredFieldError": "ValueError",
    "json.JSONDecodeError": "json.decoder.JSONDecodeError",
    "json.decoder.JSONDecodeError": "ValueError",
    "zlib.error": "Exception",
    "brotli.error": "Exception",
    "binascii.Error": "ValueError",
    "re.error": "Exception",
    "subprocess.CalledProcessError": "Exception",
    "struct.error": "Exception",
    "socket.gaierror": "OSError",
    "thor.http.error.HttpError": "Exception",
    "babel.core.UnknownLocaleError": "Exception",
    "UnicodeDecodeError": "UnicodeError",
}

TAINTED_EI = {"decimal.Decimal", "http_sf.Token", "http_sf.DisplayString", "re.Match",
              "urllib.parse.SplitResult"}

INT_MAX_STR_DIGITS = 4300


def ext(*names):
    def deco(f):
        for n in names:
            EXT[n] = f
        return f

    return deco


def b(*names):
    return ext(*["builtins." + n for n in names])


def intrinsic(name):
    def deco(f):
        INTRINSICS.add(name)
        EXT["$." + name] = f
        return f

    return deco


def arg(args, kwargs, i, name=None, default=None):
    if i is not None and i < len(args):
        return args[i]
    if name and name in kwargs:
        v, m = kwargs[name]
        return join(v, default) if m and default is not None else v
    return default


def const1(v):
    """The Python constant a value certainly is: (True, x) or (False, None)."""
    if v is not None and len(v) == 1:
        (a,) = v
        if isinstance(a, C) and a is not UNBOUND:
            return True, a.v
    return False, None


def ret(st, *atoms):
    return [(st, frozenset(atoms))]


def stringy(a):
    return isinstance(a, S) or (isinstance(a, C) and a.t == "str")


def bytesy(a):
    return isinstance(a, B) or (isinstance(a, C) and a.t == "bytes")


def inty(a):
    return isinstance(a, I) or (isinstance(a, C) and a.t in ("int", "bool"))


def floaty(a):
    return isinstance(a, F) or (isinstance(a, C) and a.t == "float")


def rng(a):
    """(lo, hi) of an int atom."""
    if isinstance(a, C):
        return int(a.v), int(a.v)
    return a.lo, a.hi


def isbig(a):
    return isinstance(a, I) and a.big


def as_S(a):
    return a if isinstance(a, S) else str_atom(a.v)


def pyname(engine, st, a):
    """Python type name of an atom, None when unknown."""
    if isinstance(a, C):
        return None if a is UNBOUND else a.t
    if isinstance(a, S):
        return "str"
    if isinstance(a, B):
        return "bytes"
    if isinstance(a, I):
        return "int"
    if isinstance(a, F):
        return "float"
    if isinstance(a, (T, TN)):
        return "tuple"
    if isinstance(a, (R, W)):
        o = st.get(a.addr)
        if isinstance(o, ListO):
            return "list"
        if isinstance(o, DictO):
            return o.cls or "dict"
        if isinstance(o, SetO):
            return "set"
        if isinstance(o, Obj):
            return o.cls
        if isinstance(o, ExtO):
            return o.typ
        return None
    if isinstance(a, EI):
        return a.typ
    if isinstance(a, EnumM):
        return a.cls
    return None


JKINDS = frozenset(["null", "bool", "int", "float", "str", "list", "dict"])


def j_kind(engine, st, kind, node):
    """Atoms for a JSON value of the given kind (fresh containers)."""
    if kind == "null":
        return V(NONE)
    if kind == "bool":
        return VBOOL
    if kind == "int":
        return V(I(None, None, None, True))
    if kind == "float":
        return V(F())
    if kind == "str":
        return V(S(ml=0, taint=JSONT))
    if kind == "list":
        return V(engine.alloc(st, node, ListO(None, V(J()), 0, None), "jl"))
    return V(engine.alloc(st, node, DictO({}, V(S(ml=0, taint=JSONT)), V(J())), "jd"))


def j_expand(engine, st, v, node):
    """Replace J atoms by their kinds."""
    if not any(isinstance(a, J) for a in v):
        return v
    out = set()
    for a in v:
        if isinstance(a, J):
            for k in sorted(JKINDS - a.no):
                out |= j_kind(engine, st, k, node)
        else:
            out.add(a)
    return frozenset(out)
