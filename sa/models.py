"""The library model table the engine talks to."""

from __future__ import annotations

import importlib

from .atoms import *
from .m_core import *
from . import md, m_ops, m_cond, m_str, m_ext, m_lib
from .m_ops import binop
from .m_cond import compare, cond_call, cond_len
from .m_str import call_method, min_len, str_slice, str_method
from .m_lib import m_match, re_call
from .state import DictO, ExtO, ListO, Obj, SetO, UNBOUND, Unknown, join_states

CONST_MODULES = ("re", "zlib", "string", "math", "sys", "os", "socket", "codecs", "email", "locale", "errno")
_ENV_CONSTS = ("os.environ", "sys.argv", "sys.path", "sys.stdin", "sys.stdout", "sys.stderr", "sys.modules")
_TYPING = ("typing.", "typing_extensions.", "collections.abc.", "types.")
_GENERIC = {"builtins.list", "builtins.dict", "builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.type",
            "collections.UserList", "collections.UserDict", "collections.defaultdict", "collections.OrderedDict",
            "collections.deque", "collections.Counter", "contextvars.ContextVar", "weakref.ReferenceType",
            "weakref.ref", "functools.partial", "re.Pattern", "re.Match", "os.PathLike", "weakref.WeakKeyDictionary",
            "queue.Queue", "collections.ChainMap"}
TEXT_EI = {"http_sf.Token", "http_sf.DisplayString"}


def _e():
    from . import engine

    return engine


def ext_const(p):
    top = p.split(".")[0]
    if p in ("typing.TYPE_CHECKING", "typing_extensions.TYPE_CHECKING"):
        return VFALSE
    if top not in CONST_MODULES or p in _ENV_CONSTS:
        return None
    try:
        obj = importlib.import_module(top)
        for part in p.split(".")[1:]:
            obj = getattr(obj, part)
    except Exception:
        return None
    if isinstance(obj, bool) or obj is None:
        return Cv(obj)
    if isinstance(obj, int):
        return Cv(int(obj))
    if isinstance(obj, str):
        if p in ("os.sep", "os.linesep", "sys.version", "sys.executable", "sys.prefix"):
            return V(S(ml=1))
        return Cv(obj)
    return None


def is_typing(p):
    return p.startswith(_TYPING) or p in _GENERIC


# exceptions whose text quotes nothing of their input that could be markup
QUIET_EXC = frozenset(["JSONDecodeError", "UnicodeDecodeError", "UnicodeEncodeError",
                       "RecursionError", "MemoryError", "ZeroDivisionError", "RuntimeError"])


# ---------------------------------------------------------------- external instances
def ei_str(engine, st, a):
    t = a.typ
    if t == "http_sf.DisplayString":
        return S(ml=0, taint=WIRE | {"display"})
    if t == "http_sf.Token":
        return S(ml=1, taint=SFTOKEN)
    if t == "decimal.Decimal":
        return S(ml=1, taint=frozenset(["ascii"]))
    if t == "exc":
        pl = a.payload
        if isinstance(pl, str) and pl.split("@")[0].rsplit(".", 1)[-1] in QUIET_EXC:
            return S(ml=1, taint=frozenset(["exc"]))
        return S(ml=0, taint=HAZ | {"exc"} if isinstance(pl, str) else frozenset())
    return S(ml=1, taint=engine.taint(st, V(a)))


_ATTRS = {
    "datetime.datetime": {"year": I(1, 9999), "month": I(1, 12), "day": I(1, 31), "hour": I(0, 23),
                          "minute": I(0, 59), "second": I(0, 59), "microsecond": I(0, 999999), "tzinfo": TOP},
    "datetime.timedelta": {"days": I(-999999999, 999999999), "seconds": I(0, 86399), "microseconds": I(0, 999999)},
    "codecs.CodecInfo": {"name": S(ml=1)},
    "babel.Translations": {},
}


def ei_attr(engine, st, a, attr, node):
    t = a.typ
    tab = _ATTRS.get(t)
    if t == "codecs.CodecInfo" and attr == "name" and isinstance(a.payload, str):
        return V(C(a.payload))
    if tab and attr in tab:
        return V(tab[attr])
    if t == "exc":
        return exc_attr(engine, st, a, attr, node)
    if t == "urllib.parse.SplitResult":
        taint = frozenset(a.payload or WIRE)
        if attr in ("scheme", "netloc", "path", "query", "fragment", "params"):
            return V(S(ml=0, taint=taint))
        if attr in ("hostname", "username", "password"):
            return V(NONE, S(ml=0, taint=taint))
        if attr == "port":
            engine.raise_exc(st, "ValueError", node, "port that is not a number in range")
            return V(NONE, I(0, 65535))
        return V(XM(a, attr))
    if t == "re.Match" and attr in ("string", "lastgroup", "pos", "endpos", "lastindex", "re"):
        return V(S(ml=0, taint=frozenset(a.payload[2]))) if attr == "string" else VTOP
    if t == "re.Pattern" and attr in ("pattern", "flags", "groups", "groupindex"):
        if attr == "pattern" and a.payload and a.payload[0] is not None:
            return Cv(a.payload[0])
        return VTOP
    if t in TEXT_EI:
        if attr == "data":
            return V(ei_str(engine, st, a))
        return V(XM(a, attr)) if hasattr(str, attr) else None
    if t == "decimal.Decimal":
        import decimal

        return V(XM(a, attr)) if hasattr(decimal.Decimal, attr) else None
    if t in ("datetime.datetime", "datetime.timedelta"):
        import datetime

        return V(XM(a, attr)) if hasattr(getattr(datetime, t.split(".")[1]), attr) else None
    if t == "decorator":
        return V(XM(a, attr))
    if t == "slice":
        return VTOP
    return V(XM(a, attr))


def exc_attr(engine, st, a, attr, node):
    n = a.payload
    if isinstance(n, str) and "@" in n and attr in ("start", "end"):
        return V(C(int(n.split("@")[1].split(":")[attr == "end"])))
    if attr == "args":
        return V(TN(V(S(ml=0, taint=WIRE)), 0))
    if attr in ("with_traceback", "add_note"):
        return V(XM(a, attr))
    if n and ("StructuredFieldError" in n):
        if attr in ("position",):
            return V(I(0, None))
        if attr == "context":
            return V(NONE, S(ml=0, taint=HAZ | {"ascii"}), EI("bytesish"))
        return VTOP
    if n and "JSONDecodeError" in n:
        if attr == "msg":
            return V(S(ml=1))
        if attr in ("pos", "lineno", "colno"):
            return V(I(0, None))
        if attr == "doc":
            return V(S(ml=0, taint=WIRE))
    return VTOP


def ei_item(engine, st, a, k, node):
    t = a.typ
    if t == "urllib.parse.SplitResult":
        taint = frozenset(a.payload or WIRE)
        return V(S(ml=0, taint=taint))
    if t == "re.Match":
        out = EMPTY
        for s, v in m_match(engine, st, a, "group", [k], {}, node):
            out |= v
        return out or None
    if t in TEXT_EI:
        return engine.str_item(st, ei_str(engine, st, a), k, node)
    if t in ("datetime.datetime", "datetime.timedelta", "decimal.Decimal", "codecs.CodecInfo2", "re.Pattern"):
        engine.raise_exc(st, "TypeError", node, f"subscript of {t}")
        return None
    return VTOP


def ei_iter(engine, s, a, node):
    t = a.typ
    if t == "urllib.parse.SplitResult":
        taint = frozenset(a.payload or WIRE)
        return [(s, "exact", [V(S(ml=0, taint=taint)) for _ in range(5)])]
    if t in TEXT_EI:
        return [(s, "sum", (V(S(ml=1, mx=1, taint=ei_str(engine, s, a).taint)), 0, None, None))]
    if t in ("datetime.datetime", "datetime.timedelta", "decimal.Decimal", "re.Match", "re.Pattern", "exc"):
        engine.raise_exc(s, "TypeError", node, f"iteration over {t}")
        return []
    return [(s, "sum", (VTOP, 0, None, None))]


def ei_truth(a):
    if a.typ in ("decimal.Decimal", "datetime.timedelta", "http_sf.DisplayString"):
        return True, True
    if a.typ in ("re.Match", "re.Pattern", "datetime.datetime", "exc", "http_sf.Token", "urllib.parse.SplitResult",
                 "babel.Translations", "codecs.CodecInfo", "ctxmgr"):
        return True, False
    return True, True


def ei_method(engine, st, r, name, args, kwargs, node):
    t = r.typ
    if t == "re.Match":
        return m_match(engine, st, r, name, args, kwargs, node)
    if t == "re.Pattern":
        pat, fl = r.payload
        pv = Cv(pat) if pat is not None else V(S(ml=None))
        fv = Cv(fl)
        if name in m_lib.RE_FUNCS and name != "compile":
            if name in ("sub", "subn"):
                return re_call(engine, st, name, pv, arg(args, kwargs, 1, "string", VTOP), fv,
                               [arg(args, kwargs, 0, "repl", VTOP)], node, None)
            sn = node.args[0] if hasattr(node, "args") and node.args else None
            return re_call(engine, st, name, pv, arg(args, kwargs, 0, "string", VTOP), fv, [], node, sn)
        return [(st, VTOP)]
    if t in TEXT_EI:
        return str_method(engine, st, ei_str(engine, st, r), name, args, kwargs, node)
    if t == "datetime.datetime":
        if name == "timestamp":
            # http_sf dates are aware, and within the years a datetime holds
            return ret(st, F())
        if name in ("isoformat", "strftime", "ctime"):
            return ret(st, S(ml=1))
        if name in ("timetuple", "utctimetuple"):
            return ret(st, T([V(I())] * 9))
        if name in ("replace", "astimezone"):
            return ret(st, r)
        if name in ("weekday", "toordinal", "isoweekday"):
            return ret(st, I(0, None))
    if t == "datetime.timedelta" and name == "total_seconds":
        return ret(st, F())
    if t == "decimal.Decimal":
        if name in ("is_nan", "is_zero", "is_signed", "is_finite"):
            return [(st, VBOOL)]
        return ret(st, r)
    if t == "urllib.parse.SplitResult":
        if name == "geturl":
            return ret(st, S(ml=0, taint=frozenset(r.payload or WIRE)))
        if name == "_replace":
            return ret(st, r)
    if t == "babel.Translations":
        if name in ("gettext", "ugettext", "lgettext"):
            return [(st, translated(engine, st, args[0]))]
        if name in ("ngettext", "ungettext"):
            return [(st, translated(engine, st, args[0]) | translated(engine, st, args[1]))]
        return [(st, VTOP)]
    if t == "markdown.Markdown":
        if name in ("reset",):
            return ret(st, r)
        if name == "convert":
            h = engine.hooks.get("markdown")
            if h:
                h(engine, st, args, node)
            return ret(st, S(ml=None, taint=engine.taint(st, args[0]) - md.LABELS))
        return [(st, VTOP)]
    if t == "exc":
        return ret(st, r)
    if t == "sniffpy.MIMEType":
        return ret(st, S(ml=1))
    return [(st, VTOP)]


def translated(engine, st, v):
    """A message and its translations in every catalogue."""
    cat = getattr(engine, "catalog", None) or {}
    out = set(v)
    for a in v:
        if isinstance(a, C) and isinstance(a.v, str):
            for x in cat.get(a.v, ()):
                out.add(C(x))
    return frozenset(out)


# ---------------------------------------------------------------- calls of external instances
def call_ei(engine, st, a, args, kwargs, node):
    if a.typ == "ctxmgr":
        out = []
        for s, v in engine.call(st, V(a.payload), args, kwargs, node):
            el, _, _ = engine.summary_elems(s, v, node)
            out.append((s, V(EI("ctxval", el or VNONE))))
        return out
    if a.typ == "decorator":
        return [(st, args[0] if args else VTOP)]
    if a.typ in ("exc", "re.Match", "re.Pattern", "datetime.datetime", "datetime.timedelta", "decimal.Decimal",
                 "http_sf.Token", "http_sf.DisplayString", "urllib.parse.SplitResult"):
        engine.raise_exc(st, "TypeError", node, f"call of {a.typ}")
        return []
    engine.havoc_args(st, args, kwargs)
    return [(st, VTOP)]


# ---------------------------------------------------------------- dataclasses
def dataclass_new(engine, st, ci, r, args, kwargs, node):
    names = []
    for c in reversed(ci.mro):
        if isinstance(c, Cls):
            for n, _ in engine.classes[c.qual].annots:
                if n not in names:
                    names.append(n)
    o = st.get(r.addr)
    given = dict(zip(names, args))
    if len(args) > len(names):
        engine.raise_exc(st, "TypeError", node, f"{ci.name}() takes {len(names)} arguments")
        return []
    for k, (v, m) in kwargs.items():
        if k not in names:
            engine.raise_exc(st, "TypeError", node, f"{ci.name}() got an unexpected keyword {k!r}")
            return []
        given[k] = v
    out = []
    for n in names:
        if n in given:
            o = o.set(n, given[n])
            continue
        d = engine.class_lookup(st, ci.qual, n)
        if d is None or any(isinstance(x, EI) and x.typ == "dataclasses.required" for x in d):
            engine.raise_exc(st, "TypeError", node, f"{ci.name}() missing argument {n!r}")
            return []
        val = EMPTY
        for x in d:
            if isinstance(x, EI) and x.typ == "dataclasses.factory":
                for s2, v in engine.call(st, V(x.payload), [], {}, node):
                    val |= v
            else:
                val |= V(x)
        o = o.set(n, val)
    st.put(r.addr, o)
    post = engine.class_lookup(st, ci.qual, "__post_init__")
    if post is None:
        return [(st, V(r))]
    for f in post:
        for s, _ in engine.call_atom(st, BM(r, f), [], {}, node):
            out.append((s, V(r)))
    return out


# ---------------------------------------------------------------- anything else
def ext_default(engine, st, path, args, kwargs, node):
    import builtins

    last = path.rsplit(".", 1)[-1]
    name = path[len("builtins."):] if path.startswith("builtins.") else None
    if name and isinstance(getattr(builtins, name, None), type) and issubclass(getattr(builtins, name), BaseException):
        return ret(st, EI("exc", name))
    if path in EXC_PARENTS or last.endswith(("Error", "Exception", "Warning")):
        return ret(st, EI("exc", path))
    engine.unmodelled.setdefault(path, set()).add(engine.qual())
    engine.havoc_args(st, args, kwargs)
    return [(st, VTOP)]


m_ext.ei_method = ei_method
m_ext.exto_method = m_lib.exto_method
