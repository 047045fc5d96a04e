"""Methods of text, bytes and containers."""

from __future__ import annotations

from .atoms import *
from .m_core import *
from . import md, rx
from .m_lib import lang_split
from .m_ops import list_extend, set_op, seq_obj
from .state import DictO, ExtO, ListO, Obj, SetO, UNBOUND, Unknown, join_states, mark


def _e():
    from . import engine

    return engine


def min_len(engine, a):
    if a.ml is None:
        return None
    if a.ci is not None:
        return len(a.ci)
    if a.has:
        return max(a.ml, max(len(h) for h in a.has))
    return a.ml


def str_slice(engine, a, ka):
    sl = _e()._const_slice(ka)
    t = md.cut(a.taint)
    sym = a.sym if (a.sym and a.sym[0] not in ("in", "ne")) else None
    if sl is None:
        return S(ml=None, taint=t)
    if sl.step is not None:
        return S(ml=None if a.ml is None or a.ml else 0, taint=t)
    lo, hi = sl.start, sl.stop
    ml = a.ml
    if ml is None:
        return S(ml=None, taint=t)
    if (lo is None or lo == 0) and hi is not None and hi > 0:
        return S(ml=min(ml, hi), mx=hi, taint=t, sym=("ch", sym, 0) if hi == 1 and sym else None)
    if hi is None and lo is not None and lo < 0:
        return S(ml=min(ml, -lo), mx=-lo, taint=t)
    if hi is None and (lo or 0) >= 0:
        n = ml - (lo or 0)
        return S(ml=n if n > 0 else (0 if not a.has else None), taint=t)
    if lo is not None and lo >= 0 and hi is not None and hi < 0:
        n = ml - lo + hi
        return S(ml=n if n > 0 else (0 if not a.has else None), taint=t)
    return S(ml=None if ml else 0, taint=t)


STR_SAME = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "casefold", "swapcase",
            "replace", "translate", "zfill", "ljust", "rjust", "center", "expandtabs", "removeprefix",
            "removesuffix", "format", "format_map", "join", "__str__", "__add__", "__mod__"}
STR_BOOL = {"isdigit", "isalpha", "isalnum", "isspace", "isupper", "islower", "istitle", "isidentifier",
            "isnumeric", "isdecimal", "isprintable", "isascii", "startswith", "endswith", "__eq__", "__ne__",
            "__contains__"}


def call_method(engine, st, xm, args, kwargs, node):
    r = xm.recv
    h = engine.hooks.get("method")
    if h:
        h(engine, st, xm, args, kwargs, node)
    if isinstance(r, C) and isinstance(r.v, str) or isinstance(r, S):
        return str_method(engine, st, r, xm.name, args, kwargs, node)
    if isinstance(r, C) and isinstance(r.v, bytes) or isinstance(r, B):
        return bytes_method(engine, st, r, xm.name, args, kwargs, node)
    if isinstance(r, (R, W)):
        o = st.get(r.addr)
        if isinstance(o, ListO):
            return list_method(engine, st, r, o, xm.name, args, kwargs, node)
        if isinstance(o, DictO):
            return dict_method(engine, st, r, o, xm.name, args, kwargs, node)
        if isinstance(o, SetO):
            return set_method(engine, st, r, o, xm.name, args, kwargs, node)
        if isinstance(o, ExtO):
            from .m_ext import exto_method

            return exto_method(engine, st, r, o, xm.name, args, kwargs, node)
        if isinstance(o, Obj):
            if xm.name in ("__init__", "__init_subclass__", "__setattr__"):
                return [(st, VNONE)]
            if xm.name in ("__repr__", "__str__"):
                return [(st, V(S(ml=1)))]
            if xm.name == "__hash__":
                return [(st, V(I()))]
            if xm.name == "__eq__":
                return [(st, VBOOL)]
            engine.havoc_args(st, args, kwargs)
            return [(st, VTOP)]
        return [(st, VTOP)]
    if isinstance(r, (T, TN)):
        if xm.name == "index":
            engine.raise_exc(st, "ValueError", node, "tuple.index", weak=True)
        return [(st, V(I(0, None)))]
    if isinstance(r, Prop):
        return [(st, VTOP)]
    if isinstance(r, EI):
        from .m_ext import ei_method

        return ei_method(engine, st, r, xm.name, args, kwargs, node)
    if isinstance(r, I) or (isinstance(r, C) and r.t in ("int", "bool")):
        if xm.name in ("bit_length", "conjugate"):
            return [(st, V(I(0, None)))]
        return [(st, VTOP)]
    if isinstance(r, Cls) and xm.name in ("__subclasses__",):
        subs = [Cls(q) for q, c in engine.classes.items() if r in c.bases]
        return [(st, V(engine.new_list(st, node, [V(x) for x in subs])))]
    engine.havoc_args(st, args, kwargs)
    return [(st, VTOP)]


def _all_const(args, kwargs):
    vals = []
    for v in args:
        ok, x = const1(v)
        if not ok:
            return None
        vals.append(x)
    kw = {}
    for k, (v, m) in kwargs.items():
        ok, x = const1(v)
        if not ok or m:
            return None
        kw[k] = x
    return vals, kw


def _from_py(engine, st, x, node):
    if isinstance(x, list):
        return V(engine.new_list(st, node, [_from_py(engine, st, y, node) for y in x]))
    if isinstance(x, tuple):
        return V(T([_from_py(engine, st, y, node) for y in x]))
    return Cv(x)


PURE_STR = STR_SAME | STR_BOOL | {"split", "rsplit", "splitlines", "partition", "rpartition", "find", "rfind",
                                  "index", "rindex", "count", "encode"}


def check_str_arg(engine, st, v, node, name):
    """Drop and report arguments that are certainly not text."""
    out = set()
    for a in v:
        if isinstance(a, C) and a.t != "str" and a is not UNBOUND or isinstance(a, (I, F, B, T, TN)):
            engine.raise_exc(st, "TypeError", node, f"str.{name}({_e()._desc(a, st)})")
        elif isinstance(a, (R, W)) and isinstance(st.get(a.addr), (ListO, DictO, SetO)):
            engine.raise_exc(st, "TypeError", node, f"str.{name}({_e()._desc(a, st)})")
        else:
            out.add(a)
    return frozenset(out)


def str_method(engine, st, r, name, args, kwargs, node):
    if isinstance(r, C) and name in PURE_STR and name not in ("join", "format_map", "translate"):
        ac = _all_const(args, kwargs)
        if ac is not None:
            try:
                return [(st, _from_py(engine, st, getattr(r.v, name)(*ac[0], **ac[1]), node))]
            except Exception as why:
                engine.raise_exc(st, type(why).__name__, node, f"str.{name}: {type(why).__name__}")
                return []
    s = as_S(r)
    t = s.taint
    if name == "join":
        return str_join(engine, st, r, args[0] if args else VTOP, node)
    if name in ("format", "format_map"):
        for v in list(args) + [x for x, _ in kwargs.values()]:
            t = t | engine.taint(st, v)
        if t & md.LABELS:
            t = t - md.LABELS | (brace_labels(engine, st, r, args, kwargs, node) & md.LABELS)
        return ret(st, S(ml=None, taint=t))
    if name in ("lower", "upper", "casefold", "title", "capitalize", "swapcase"):
        if s.ci is not None and isinstance(r, S):
            if name in ("lower", "casefold"):
                return ret(st, C(s.ci.lower()))
            if name in ("upper", "title", "capitalize"):
                return ret(st, C(getattr(s.ci.lower(), name)()))
            return ret(st, s)
        sym = s.sym
        if sym is not None and sym[0] in ("in", "ne"):
            sym = None
        if sym is not None and sym[0] == "pad":
            return ret(st, s)
        lab = {"lower": "lc", "casefold": "lc", "upper": "uc"}.get(name)
        if sym is not None:
            sym = (lab, sym) if lab and sym[0] != lab else (sym if lab else None)
        return ret(st, s.but(has=frozenset(getattr(h, name)() for h in s.has) if name in ("lower", "upper", "casefold")
                             else frozenset(), sym=sym, cls=None, lang=None))
    if name in ("strip", "lstrip", "rstrip"):
        if s.ci is not None:
            return ret(st, s)
        if s.other:
            if s.sym and s.sym[0] == "pad" and name == "strip":
                # the name of a known field with white space around it
                return ret(st, *[S(ci=n, ml=len(n), taint=s.taint) for n in s.sym[1]])
            return ret(st, s)
        if args and not args[0] <= VNONE:
            a0 = check_str_arg(engine, st, args[0] - VNONE, node, name)
            if not a0:
                return []
            ok, ch = const1(args[0])
        else:
            ok, ch = True, " \t\n\r\x0b\x0c"
        hasn = frozenset(h for h in s.has if ok and h and not (h[0] in ch or h[-1] in ch))
        ml = s.ml
        if ml:
            ml = max([len(h) for h in hasn] or [0])
            if ml == 0 and s.lang == ("strip",) and ch == " \t\n\r\x0b\x0c":
                ml = s.ml
            if ml == 0 and s.lang == ("solid",) and ok and ch in (" \t\n\r\x0b\x0c", " ", "\t", " \t"):
                ml = 1
        if isinstance(r, S) and r.sym and r.sym[0] in ("in", "ne"):
            sym = None
        else:
            sym = s.sym
        lang = s.lang
        if lang is not None and lang[0] == "re":
            lang = lang[:4] + (True,) if name == "strip" and (not args or args[0] <= VNONE) else None
        elif name == "strip" and (not args or args[0] <= VNONE) and (lang is None or lang == ("solid",)):
            lang = ("strip",)  # not blank unless empty
        elif lang == ("solid",) and not (ok and ch == " \t\n\r\x0b\x0c"):
            lang = None
        elif lang == ("strip",) and not (ok and ch == " \t\n\r\x0b\x0c"):
            lang = None
        return ret(st, s.but(ml=ml, has=hasn, sym=sym, cls=None, other=False, lang=lang))
    if name == "replace":
        for v in args[:2]:
            if not check_str_arg(engine, st, v, node, name):
                return []
        (ok1, o1), (ok2, n1) = const1(args[0]), const1(args[1]) if len(args) > 1 else (False, None)
        for v in args[1:2]:
            t = t | engine.taint(st, v)
        if ok1 and ok2 and s.ci is not None:
            return ret(st, s.but(ci=s.ci.replace(o1, n1)))
        if s.other and ok1 and ok2:
            return ret(st, s)
        ml = s.ml
        if ml and not (ok2 and len(n1) >= 1 and ok1 and len(o1) <= len(n1)):
            ml = None if not (ok1 and ok2 and n1 == "") else (0 if not s.has else None)
        if ok1 and ok2:
            t = md.replaced(t | s.taint, o1, n1)
        else:
            t = md.cut(t | s.taint)
        return ret(st, S(ml=ml, taint=t,
                         has=frozenset(h for h in s.has if ok1 and not set(o1) & set(h))))
    if name in ("removeprefix", "removesuffix", "translate", "expandtabs"):
        return ret(st, S(ml=0 if not s.ml else None, taint=t))
    if name in ("zfill", "ljust", "rjust", "center"):
        return ret(st, S(ml=s.ml, taint=t))
    if name in ("split", "rsplit"):
        sep = arg(args, kwargs, 0, "sep", VNONE)
        mx = arg(args, kwargs, 1, "maxsplit", Cv(-1))
        sep2 = sep - VNONE
        if sep2:
            sep2 = check_str_arg(engine, st, sep2, node, name)
            if not sep2 and NONE not in sep:
                return []
        ok, m = const1(mx)
        t = md.cut(t)
        if m == -1 and ok:
            if not sep2:
                t = md.without(t, "\n\r")
            elif const1(sep2)[0] and const1(sep2)[1] in ("\n", "\r", "`", "<"):
                t = md.without(t, const1(sep2)[1])
        piece = S(ml=0, taint=t, sym=("part", s.sym) if s.sym and s.sym[0] not in ("in", "ne") else None)
        hi = m + 1 if ok and isinstance(m, int) and m >= 0 else None
        if NONE in sep and not sep2:
            lst = ListO(None, V(piece.but(ml=1)), 1 if s.lang == ("strip",) and s.ml else 0, hi)
        else:
            okp, p = const1(sep2)
            if okp and p == "":
                engine.raise_exc(st, "ValueError", node, "empty separator")
                return []
            if s.lang and s.lang[0] == "re" and hi == 2 and okp and name == "split" and len(p) == 1:
                known = lang_split(s.lang, p)
                if known is not None:
                    a, b, nosep, before, behind, bl1, bl2 = known
                    p1, p2 = (piece.but(taint=md.limited(t, lambda ch, m=m_: bool(m & rx.lit(ord(ch)))))
                              for m_ in (before, behind))
                    res = []
                    if nosep:
                        res.append(ListO([V(p1.but(ml=s.ml))]))
                    if a is not None:
                        res.append(ListO([V(p1.but(ml=a, lang=None if bl1 else ("solid",))),
                                          V(p2.but(ml=b, lang=None if bl2 else ("solid",)))]))
                    states = [st] + [st.fork() for _ in res[1:]]
                    return [(x, V(engine.alloc(x, node, o, "split"))) for x, o in zip(states, res)]
                piece = piece.but(ml=None)
            lo = 1
            if okp and any(p in h for h in s.has) and (hi is None or hi >= 2):
                lo = 2
            if hi is not None and hi == lo and hi <= 3:
                lst = ListO([V(piece)] * lo)
            else:
                lst = ListO(None, V(piece), lo, hi)
        return [(st, V(engine.alloc(st, node, lst, "split")))]
    if name == "splitlines":
        return [(st, V(engine.alloc(st, node, ListO(None, V(S(ml=0, taint=md.without(md.cut(t), "\n\r"))), 1 if s.ml else 0, None), "split")))]
    if name in ("partition", "rpartition"):
        if args and not check_str_arg(engine, st, args[0], node, name):
            return []
        ok, p = const1(args[0]) if args else (False, None)
        piece = V(S(ml=0, taint=md.cut(t)))
        sepv = args[0] if ok else V(S(ml=1))
        if not (ok and any(p in h for h in s.has)):
            sepv = sepv | Cv("")
        return ret(st, T([piece, sepv, piece]))
    if name in ("find", "rfind", "index", "rindex"):
        if args and not check_str_arg(engine, st, args[0], node, name):
            return []
        ok, p = const1(args[0]) if args else (False, None)
        sure = ok and len(args) == 1 and any(p in h for h in s.has)
        if name in ("index", "rindex"):
            if not sure:
                engine.raise_exc(st, "ValueError", node, f"str.{name}: substring not found")
            return ret(st, I(0, None))
        return ret(st, I(0 if sure else -1, None))
    if name == "count":
        return ret(st, I(0, None))
    if name == "encode":
        enc = arg(args, kwargs, 0, "encoding", Cv("utf-8"))
        errs = arg(args, kwargs, 1, "errors", Cv("strict"))
        oke, ev = const1(errs)
        okc, cv = const1(enc)
        if oke and ev == "strict":
            if okc and str(cv).lower().replace("_", "-") in ("utf-8", "utf8"):
                if "json" in t or "user" in t:
                    engine.raise_exc(st, "UnicodeEncodeError", node, "encoding text that may hold lone surrogates")
            elif okc and str(cv).lower() in ("unicode-escape", "raw-unicode-escape"):
                pass
            else:
                if "wire" in t and not ("ascii" in t or (okc and str(cv).lower() in ("latin-1", "iso-8859-1") and "latin1" in t)):
                    engine.raise_exc(st, "UnicodeEncodeError", node, f"encoding to {cv}")
                elif not okc:
                    engine.raise_exc(st, "LookupError", node, "unknown encoding", weak=True)
        return ret(st, B(ml=s.ml, taint=t, other=s.other, ci=s.ci))
    if name in STR_BOOL:
        if name in ("startswith", "endswith") and args:
            vv = frozenset(a for a in args[0] if not isinstance(a, (T, TN)))
            if vv and not check_str_arg(engine, st, vv, node, name) and len(vv) == len(args[0]):
                return []
        if name in ("isascii", "isprintable") or s.ml != 0:
            return [(st, VBOOL)]
        return [(st, VBOOL)]
    if name in ("__len__",):
        return ret(st, I(s.ml or 0, s.mx))
    if name in ("__str__",):
        return ret(st, r)
    if name in ("__mod__",):
        from .m_ops import binop
        import ast

        return binop(engine, ast.Mod(), V(r), args[0], st, node)
    return [(st, VTOP)]


def brace_labels(engine, st, r, args, kwargs, node):
    """Markdown labels of template.format(…)."""
    import string

    parts = []
    try:
        n = 0
        for lit, field, _spec, _conv in string.Formatter().parse(r.v):
            parts.append(Cv(lit))
            if field is None:
                continue
            name = field.split(".")[0].split("[")[0]
            if name == "":
                name, n = str(n), n + 1
            v = args[int(name)] if name.isdigit() else kwargs[name][0]
            x = engine.to_str(st, v, node)
            parts.append(joinall([w for _, w in x]))
    except (ValueError, KeyError, IndexError, AttributeError, TypeError):
        t = frozenset()
        for v in list(args) + [x for x, _ in kwargs.values()]:
            t |= engine.taint(st, v)
        return md.cut(t | {"sp"} if t & md.LABELS else t)
    return md.labels(parts)[0]


def str_join(engine, st, sep, itv, node):
    out = []
    engine.check_order(st, itv, node, "join", node)
    x = engine.exact_elems(st, itv)
    if x is not None and len(x) <= 24:
        parts = []
        for i, v in enumerate(x):
            good = _join_ok(engine, st, v, node)
            if not good:
                return []
            if i:
                parts.append(V(sep))
            parts.append(good)
        return [(st, engine.concat(parts) if parts else Cv(""))]
    el, lo, hi = engine.summary_elems(st, itv, node)
    good = _join_ok(engine, st, el, node) if el else el
    t = engine.taint(st, el) | (sep.taint if isinstance(sep, S) else frozenset())
    if t & md.LABELS and good:
        t = t - md.LABELS | (md.labels([good, V(sep), good, V(sep), good])[0] & md.LABELS)
    ml = 0
    if lo and good and all(isinstance(a, (S, C)) for a in good):
        mls = [(len(a.v) if isinstance(a, C) else a.ml) for a in good if isinstance(a, S) or isinstance(a.v, str)]
        if mls and all(m for m in mls):
            ml = min(mls)
        elif any(m is None for m in mls):
            ml = None
    return [(st, V(S(ml=ml, taint=t)))]


def _join_ok(engine, st, v, node):
    out = set()
    for a in v:
        if isinstance(a, C) and a.t != "str" and a is not UNBOUND or isinstance(a, (I, F, B, T, TN, EnumM)):
            engine.raise_exc(st, "TypeError", node, f"str.join of {_e()._desc(a, st)}")
        elif isinstance(a, J):
            engine.raise_exc(st, "TypeError", node, "str.join of arbitrary JSON value")
            out.add(S(taint=JSONT))
        elif isinstance(a, EI) and a.typ in ("http_sf.Token", "http_sf.DisplayString", "decimal.Decimal", "datetime.datetime"):
            engine.raise_exc(st, "TypeError", node, f"str.join of {a.typ}")
        elif isinstance(a, (R, W)) and isinstance(st.get(a.addr), (ListO, DictO, SetO)):
            engine.raise_exc(st, "TypeError", node, f"str.join of {_e()._desc(a, st)}")
        else:
            out.add(a)
    return frozenset(out)


BYTES_SAME = {"strip", "lstrip", "rstrip", "lower", "upper", "replace", "title", "removeprefix", "removesuffix",
              "zfill", "ljust", "rjust", "translate", "capitalize"}


def bytes_method(engine, st, r, name, args, kwargs, node):
    if isinstance(r, C):
        ac = _all_const(args, kwargs)
        if ac is not None and hasattr(r.v, name):
            try:
                return [(st, _from_py(engine, st, getattr(r.v, name)(*ac[0], **ac[1]), node))]
            except Exception as why:
                val = None
                if isinstance(why, UnicodeDecodeError):
                    val = V(EI("exc", f"UnicodeDecodeError@{why.start}:{why.end}"))
                engine.raise_exc(st, type(why).__name__, node, f"bytes.{name}: {type(why).__name__}", value=val)
                return []
        r = B(ml=len(r.v))
    t = r.taint
    if name == "decode":
        enc = arg(args, kwargs, 0, "encoding", Cv("utf-8"))
        errs = arg(args, kwargs, 1, "errors", Cv("strict"))
        oke, ev = const1(errs)
        okc, cv = const1(enc)
        extra = set(["wire", "nul"])
        if okc:
            n = str(cv).lower().replace("_", "-")
            if n in ("latin-1", "iso-8859-1", "latin1", "iso8859-1", "l1", "8859"):
                extra.add("latin1")
            elif n in ("ascii", "us-ascii"):
                if oke and ev == "strict":
                    if not ("ascii" in t and not t & {"wire", "user"}):
                        engine.raise_exc(st, "UnicodeDecodeError", node, "decoding as ascii")
                    extra.add("ascii")
                if oke and ev == "ignore":
                    extra.add("ascii")
            else:
                if oke and ev == "strict" and not ("ascii" in t and not t & {"wire", "user"}):
                    engine.raise_exc(st, "UnicodeDecodeError", node, f"decoding as {n}")
        else:
            engine.raise_exc(st, "LookupError", node, "decoding with an unknown codec name", weak=not bool(engine.taint(st, enc)))
            if oke and ev == "strict":
                engine.raise_exc(st, "UnicodeDecodeError", node, "decoding with an unknown codec")
                # "undefined", "idna" and others raise their base class
                engine.raise_exc(st, "UnicodeError", node, "decoding with an unusual codec")
        if oke and ev == "surrogateescape":
            extra.add("user")
        if r.ci is not None:
            return ret(st, S(ci=r.ci, ml=len(r.ci), taint=t))
        if r.mx is not None and okc and n in ("latin-1", "iso-8859-1", "latin1", "iso8859-1", "ascii", "us-ascii") and \
                oke and ev in ("strict", "replace"):
            return ret(st, S(ml=r.ml, mx=r.mx, taint=(t | frozenset(extra)) if t else t, other=r.other, sym=r.sym))
        return ret(st, S(ml=r.ml, taint=(t | frozenset(extra)) if t else t, other=r.other, sym=r.sym))
    if name in BYTES_SAME:
        return ret(st, r.but(ml=r.ml if name in ("lower", "upper", "title") else (0 if r.ml == 0 else None)))
    if name in ("split", "rsplit", "splitlines"):
        return [(st, V(engine.alloc(st, node, ListO(None, V(B(taint=t)), 1 if args and name != "splitlines" else 0, None), "split")))]
    if name in ("partition", "rpartition"):
        return ret(st, T([V(B(taint=t))] * 3))
    if name in ("find", "rfind"):
        return ret(st, I(-1, None))
    if name in ("index", "rindex"):
        engine.raise_exc(st, "ValueError", node, f"bytes.{name}")
        return ret(st, I(0, None))
    if name == "count":
        return ret(st, I(0, None))
    if name == "join":
        return ret(st, B(taint=t | frozenset(["wire"])))
    if name == "hex":
        return ret(st, S(taint=frozenset()))
    if name.startswith("is") or name in ("startswith", "endswith"):
        return [(st, VBOOL)]
    return [(st, VTOP)]


# ---------------------------------------------------------------- containers
def list_method(engine, st, r, o, name, args, kwargs, node):
    a = R(r.addr)
    put = engine.put
    if name in ("append", "add", "appendleft"):
        v = args[0] if args else VTOP
        if o.exact is not None and not o.many and len(o.exact) < 64:
            put(st, a.addr, ListO(list(o.exact) + [v] if name != "appendleft" else [v] + list(o.exact), unord=o.unord))
        else:
            put(st, a.addr, ListO(None, join(o.elem, v), o.lo + (0 if o.many else 1),
                                  None if o.hi is None or o.many else o.hi + 1, o.unord, o.many, o.sure,
                                  frozenset() if o.many else o.certain() | ({mark(v)} - {None})))
        return [(st, VNONE)]
    if name == "extend":
        for x in args[0]:
            if isinstance(x, C) and x.v is None or isinstance(x, (I, F)):
                engine.raise_exc(st, "TypeError", node, f"list.extend({_e()._desc(x)})")
        list_extend(engine, st, a, frozenset(x for x in args[0] if not (isinstance(x, C) and x.v is None)), node)
        return [(st, VNONE)]
    if name == "insert":
        v = args[1]
        ok, i = const1(args[0])
        if ok and o.exact is not None and not o.many and isinstance(i, int):
            l = list(o.exact)
            l.insert(i, v)
            put(st, a.addr, ListO(l, unord=o.unord))
        else:
            put(st, a.addr, ListO(None, join(o.elem, v), o.lo + (0 if o.many else 1),
                                  None if o.hi is None else o.hi + 1, o.unord, o.many, o.sure))
        return [(st, VNONE)]
    if name in ("pop", "popleft"):
        if o.hi == 0:
            engine.raise_exc(st, "IndexError", node, "pop from an empty list")
            return []
        if o.lo == 0:
            engine.raise_exc(st, "IndexError", node, "pop from a possibly empty list", weak=not o.sure)
        if o.unord and o.hi != 1:
            engine.check_order(st, V(r), node, "index", node)
        ok, i = const1(args[0]) if args else (True, -1 if name == "pop" else 0)
        if o.exact is not None and not o.many and ok and isinstance(i, int) and -len(o.exact) <= i < len(o.exact):
            l = list(o.exact)
            v = l.pop(i)
            put(st, a.addr, ListO(l, unord=o.unord))
            return [(st, v)]
        if args and not (ok and i in (0, -1)):
            engine.raise_exc(st, "IndexError", node, "pop index", weak=True)
        put(st, a.addr, ListO(None, o.elem, max(0, o.lo - 1), None if o.hi is None else max(0, o.hi - 1), o.unord,
                              o.many, o.sure if o.lo else False))
        return [(st, o.elem)] if o.elem else []
    if name == "remove":
        engine.raise_exc(st, "ValueError", node, "list.remove(x): x not in list", weak=not (o.hi == 0))
        put(st, a.addr, ListO(None, o.elem, max(0, o.lo - 1), o.hi, o.unord, o.many, False))
        return [(st, VNONE)]
    if name == "index":
        engine.raise_exc(st, "ValueError", node, "list.index", weak=True)
        return ret(st, I(0, None))
    if name == "count":
        return ret(st, I(0, None))
    if name == "sort":
        un = o.unord
        if not kwargs.get("key"):
            un = None
        _sort_check(engine, st, o.elem, kwargs, node)
        put(st, a.addr, ListO(None, o.elem, o.lo, o.hi, un, o.many, o.sure))
        return [(st, VNONE)]
    if name == "reverse":
        put(st, a.addr, o.but(exact=tuple(reversed(o.exact)) if o.exact is not None else None))
        return [(st, VNONE)]
    if name == "clear":
        put(st, a.addr, ListO([]) if not o.many else ListO(None, o.elem, 0, o.hi, o.unord, True))
        return [(st, VNONE)]
    if name == "copy":
        return [(st, V(engine.alloc(st, node, o.but(many=False), "copy")))]
    if name == "__iter__":
        return [(st, V(a))]
    if name == "__len__":
        return ret(st, I(o.lo, o.hi))
    return [(st, VTOP)]


def _sort_check(engine, st, elem, kwargs, node):
    if "key" in kwargs:
        engine.call(st.fork(), kwargs["key"][0], [elem], {}, node)
        return
    kinds = set()
    for a in elem:
        n = pyname(engine, st, a)
        if n is None:
            return
        if isinstance(a, J):
            continue
        kinds.add("num" if n in ("int", "float", "bool", "decimal.Decimal") else
                  "str" if n in ("http_sf.Token", "http_sf.DisplayString") else n)
    if "NoneType" in kinds or "dict" in kinds or len(kinds) > 1:
        engine.raise_exc(st, "TypeError", node, f"ordering mixed {', '.join(sorted(kinds))}")


def dict_method(engine, st, r, o, name, args, kwargs, node):
    a = R(r.addr)
    if name == "get":
        k = args[0]
        engine.check_hashable(st, k, node)
        d = arg(args, kwargs, 1, "default", VNONE)
        vals, missing = engine.dict_lookup(st, o, k)
        v = vals
        if missing or missing is None:
            v = join(v, d) if v else d
        for x in k:
            if isinstance(x, (Top, J)):
                v = join(v, d)
        out = [(st, norm(v))] if v else []
        return out
    if name in ("items", "keys", "values"):
        view = {"items": None}
        if not o.okey and all(not m for _, m in o.ent.values()):
            if name == "items":
                l = [V(T([V(k), v])) for k, (v, _) in o.ent.items()]
            elif name == "keys":
                l = [V(k) for k in o.ent]
            else:
                l = [v for v, _ in o.ent.values()]
            lst = ListO(l)
        else:
            ats = set()
            for k, (v, _) in o.ent.items():
                ats |= V(T([V(k), v])) if name == "items" else V(k) if name == "keys" else v
            if o.okey:
                ok2 = frozenset(k.but(sym=("in", r.addr)) if isinstance(k, S) and not k.other else k for k in o.okey)
                ats |= V(T([ok2, o.oval])) if name == "items" else ok2 if name == "keys" else o.oval
            lst = ListO(None, frozenset(ats) if len(ats) < 500 else norm(frozenset(ats)), o.lo(), o.hi(), sure=o.sure)
        r2 = engine.alloc(st, node, lst, name)
        if lst.exact is None and engine.scenario and o.ent:
            rest = EMPTY
            if o.okey:
                rest = V(T([ok2, o.oval])) if name == "items" else ok2 if name == "keys" else o.oval
            seq = tuple((V(T([V(k), v])) if name == "items" else V(k) if name == "keys" else v, m)
                        for k, (v, m) in o.ent.items())
            engine.seq_of[r2.addr] = (lst.elem, seq, rest)
        if lst.exact is None and name != "keys":
            engine.note_once(r2.addr, lst.elem, o, r.addr)
        return [(st, V(r2))]
    if name in ("setdefault", "pop"):
        k = args[0]
        engine.check_hashable(st, k, node)
        d = arg(args, kwargs, 1, "default", VNONE if name == "setdefault" else None)
        vals, missing = engine.dict_lookup(st, o, k)
        if name == "pop":
            if missing and d is None:
                engine.raise_exc(st, "KeyError", node, "dict.pop of a possibly missing key", weak=not o.sure)
            ent = dict(o.ent)
            for ka in k:
                if ka in ent and len(k) == 1 and not o.many:
                    ent.pop(ka)
                else:
                    for x in list(ent):
                        if _e()._may_equal(ka, x) is not False:
                            ent[x] = (ent[x][0], True)
            engine.put(st, a.addr, o.but(ent=ent))
            v = vals
            if missing is not False and d is not None:
                v = join(v, d)
            return [(st, v)] if v else []
        v = vals
        if missing is not False:
            v = join(v, d)
            if len(k) == 1 and _e().const_key(next(iter(k))):
                engine.dict_put(st, a.addr, k, v)
            else:
                engine.dict_put(st, a.addr, k, d)
        return [(st, v)] if v else []
    if name == "update":
        for v in args:
            engine.dict_update(st, a.addr, v)
        for k, (v, m) in kwargs.items():
            engine.dict_put(st, a.addr, Cv(k), v)
        return [(st, VNONE)]
    if name == "copy":
        return [(st, V(engine.alloc(st, node, o.but(many=False), "copy")))]
    if name == "clear":
        engine.put(st, a.addr, DictO({}, dflt=o.dflt, many=o.many, cls=o.cls))
        return [(st, VNONE)]
    if name == "popitem":
        return ret(st, T([o.allkeys(), o.allvals()]))
    if name == "move_to_end":
        return [(st, VNONE)]
    if name == "__contains__":
        return [(st, VBOOL)]
    if name in ("__iter__",):
        return [(st, V(a))]
    return [(st, VTOP)]


def set_method(engine, st, r, o, name, args, kwargs, node):
    import ast

    a = R(r.addr)
    if name == "add":
        v = args[0]
        engine.check_hashable(st, v, node)
        if o.exact is not None and len(v) == 1 and _e().const_key(next(iter(v))) and not o.many:
            engine.put(st, a.addr, SetO(o.exact | v))
        else:
            engine.put(st, a.addr, SetO(None, join(o.elem, v), max(1, o.lo) if not o.many else o.lo,
                                        None if o.hi is None else o.hi + 1, o.many, o.sure))
        return [(st, VNONE)]
    if name in ("discard", "remove"):
        if name == "remove":
            ok = o.exact is not None and args[0] <= o.exact and len(args[0]) == 1
            if not ok:
                engine.raise_exc(st, "KeyError", node, "set.remove", weak=True)
        if o.exact is not None and len(args[0]) == 1 and _e().const_key(next(iter(args[0]))) and not o.many:
            engine.put(st, a.addr, SetO(o.exact - args[0]))
        else:
            engine.put(st, a.addr, SetO(None, o.elem, max(0, o.lo - 1), o.hi, o.many, False))
        return [(st, VNONE)]
    if name == "clear":
        engine.put(st, a.addr, SetO(frozenset()))
        return [(st, VNONE)]
    if name == "pop":
        if o.hi == 0:
            engine.raise_exc(st, "KeyError", node, "pop from an empty set")
            return []
        if o.lo == 0:
            engine.raise_exc(st, "KeyError", node, "pop from a possibly empty set", weak=not o.sure)
        engine.check_order(st, V(r), node, "pop", node)
        engine.put(st, a.addr, SetO(None, o.elem, max(0, o.lo - 1), o.hi, o.many, o.sure if o.lo else False))
        return [(st, o.elem)]
    opk = {"union": ast.BitOr, "intersection": ast.BitAnd, "difference": ast.Sub, "symmetric_difference": ast.BitXor,
           "update": ast.BitOr, "intersection_update": ast.BitAnd, "difference_update": ast.Sub}.get(name)
    if opk:
        cur = o
        for v in args:
            p = to_set(engine, st, v, node)
            cur = set_op(opk, cur, p)
        if name.endswith("update"):
            engine.put(st, a.addr, cur)
            return [(st, VNONE)]
        return [(st, V(engine.alloc(st, node, cur, "setop")))]
    if name in ("issubset", "issuperset", "isdisjoint"):
        if args:
            p = to_set(engine, st, args[0], node)
            if p.exact is not None and o.exact is not None:
                return ret(st, C(getattr(frozenset(o.exact), name)(p.exact)))
        return [(st, VBOOL)]
    if name == "copy":
        return [(st, V(engine.alloc(st, node, o, "copy")))]
    return [(st, VTOP)]


def to_set(engine, st, v, node):
    if len(v) == 1:
        (a,) = v
        o = seq_obj(st, a)
        if isinstance(o, SetO):
            return o
    el, lo, hi = engine.summary_elems(st, v, node)
    x = engine.exact_elems(st, v)
    if x is not None and all(len(e) == 1 and _e().const_key(next(iter(e))) for e in x):
        return SetO(frozenset(next(iter(e)) for e in x))
    engine.check_hashable(st, el, node)
    return SetO(None, el, 1 if lo else 0, hi)
