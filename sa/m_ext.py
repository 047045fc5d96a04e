"""Builtins and library functions."""

from __future__ import annotations

import ast
import re as _re

from .atoms import *
from .m_core import *
from .m_cond import inst_cases, type_list, has_attr
from .m_ops import list_extend, seq_obj
from .m_str import to_set
from .state import DictO, ExtO, ListO, Obj, SetO, UNBOUND, Unknown, join_states


def _e():
    from . import engine

    return engine


# ---------------------------------------------------------------- builtins
@b("len")
def b_len(engine, st, args, kwargs, node):
    res = set()
    for a in args[0]:
        if isinstance(a, C) and isinstance(a.v, (str, bytes)):
            res.add(C(len(a.v)))
        elif isinstance(a, S):
            res.add(I(a.ml or 0, a.mx))
        elif isinstance(a, B):
            sym = (("len", a.sym), 1) if a.sym else None
            if a.mx is not None and a.mx == a.ml:
                res.add(C(a.mx))
            else:
                res.add(I(a.ml or 0, a.mx, (sym, ("", 0)) if sym else None))
        elif isinstance(a, T):
            res.add(C(len(a.elems)))
        elif isinstance(a, TN):
            res.add(I(0, None))
        elif isinstance(a, (R, W)):
            o = st.get(a.addr)
            if isinstance(o, (ListO, SetO)):
                res.add(C(o.lo) if o.lo == o.hi else I(o.lo, o.hi))
            elif isinstance(o, DictO):
                lo, hi = o.lo(), o.hi()
                res.add(C(lo) if lo == hi else I(lo, hi))
            elif isinstance(o, Obj) and o.cls in engine.classes:
                f = engine.class_lookup(st, o.cls, "__len__")
                if f is not None:
                    for s, v in engine.call(st.fork(), V(*[BM(R(a.addr), x) for x in f]), [], {}, node):
                        res |= v
                elif any(isinstance(x, Ext) and x.path not in _e()._PLAIN_BASES for x in engine.classes[o.cls].mro):
                    res.add(I(0, None))
                else:
                    engine.raise_exc(st, "TypeError", node, f"len of {_e()._desc(a, st)}")
            else:
                res.add(I(0, None))
        elif isinstance(a, C) and a is not UNBOUND or isinstance(a, (I, F, Fn, BM, J)):
            engine.raise_exc(st, "TypeError", node, f"len of {_e()._desc(a, st)}")
            if isinstance(a, J):
                res.add(I(0, None))
        else:
            res.add(I(0, None))
    return [(st, norm(frozenset(res)))] if res else []


@b("str")
def b_str(engine, st, args, kwargs, node):
    if not args:
        return ret(st, C(""))
    if len(args) > 1 or kwargs:
        from .m_str import bytes_method

        out = []
        for a in args[0]:
            if bytesy(a):
                out.extend(bytes_method(engine, st, a, "decode", args[1:], kwargs, node))
        return out or [(st, V(S(ml=0)))]
    return engine.to_str(st, args[0], node)


@b("repr", "ascii")
def b_repr(engine, st, args, kwargs, node):
    return ret(st, S(ml=1, taint=engine.taint(st, args[0])))


@b("format")
def b_format(engine, st, args, kwargs, node):
    return ret(st, S(ml=None, taint=engine.taint(st, args[0])))


@b("int")
def b_int(engine, st, args, kwargs, node):
    if not args:
        return ret(st, C(0))
    res = set()
    okb, base = const1(args[1]) if len(args) > 1 else (True, 10)
    for a in args[0]:
        if isinstance(a, C) and a is not UNBOUND:
            try:
                res.add(C(int(a.v, base) if len(args) > 1 else int(a.v)))
            except (ValueError, TypeError, OverflowError) as why:
                engine.raise_exc(st, type(why).__name__, node, f"int({_e()._desc(a)})")
        elif isinstance(a, S):
            digits, width = lang_digits(a)
            if not (digits and width is not None and width < INT_MAX_STR_DIGITS):
                engine.raise_exc(st, "ValueError", node, "int() of text that may not be a number"
                                 if not digits else "int() of unbounded digits (over the conversion limit)")
            small = width is not None and width < 300 or (a.mx is not None and a.mx < 300)
            res.add(I(0 if digits else None, 10 ** width - 1 if digits and width and width < 12 else None, None, not small))
        elif isinstance(a, B):
            engine.raise_exc(st, "ValueError", node, "int() of bytes")
            res.add(I(None, None, None, True))
        elif isinstance(a, I):
            res.add(a)
        elif isinstance(a, F):
            res.add(I(None, None))
        elif isinstance(a, (T, TN)) or (isinstance(a, (R, W)) and isinstance(st.get(a.addr), (ListO, DictO, SetO))):
            engine.raise_exc(st, "TypeError", node, f"int({_e()._desc(a, st)})")
        elif isinstance(a, J):
            engine.raise_exc(st, "TypeError", node, "int() of arbitrary JSON value")
            res.add(I(None, None, None, True))
        elif isinstance(a, EI) and a.typ in ("http_sf.Token", "http_sf.DisplayString"):
            engine.raise_exc(st, "ValueError", node, f"int({a.typ})")
            res.add(I(None, None, None, True))
        elif isinstance(a, EI) and a.typ == "decimal.Decimal":
            res.add(I(None, None))
        else:
            res.add(I(None, None) if not isinstance(a, Top) else TOP)
    return [(st, norm(frozenset(res)))] if res else []


def lang_digits(a):
    """(certainly ASCII/Unicode digits, maximum width or None) from a text's language."""
    if a.lang and a.lang[0] == "digits":
        return True, a.lang[1]
    return False, a.mx


@b("float")
def b_float(engine, st, args, kwargs, node):
    res = set()
    for a in args[0] if args else Cv(0.0):
        if isinstance(a, C) and a is not UNBOUND:
            try:
                res.add(C(float(a.v)))
            except (ValueError, TypeError, OverflowError) as why:
                engine.raise_exc(st, type(why).__name__, node, f"float({_e()._desc(a)})")
            continue
        if isinstance(a, S):
            engine.raise_exc(st, "ValueError", node, "float() of text that may not be a number")
        elif isinstance(a, I) and a.big:
            engine.raise_exc(st, "OverflowError", node, "int too large to convert to float")
        elif isinstance(a, (T, TN, R, J)) and not isinstance(st.get(getattr(a, "addr", None)) if isinstance(a, R) else None, (Obj, Unknown)):
            engine.raise_exc(st, "TypeError", node, f"float({_e()._desc(a, st)})")
            if not isinstance(a, J):
                continue
        res.add(F())
    return [(st, norm(frozenset(res)))] if res else []


@b("bool")
def b_bool(engine, st, args, kwargs, node):
    if not args:
        return ret(st, FALSE)
    tv, fv, t, f = engine.truth(st, args[0], node)
    out = []
    if t is not None:
        out.append((t, VTRUE))
    if f is not None:
        out.append((f, VFALSE))
    return out


def _collect(engine, st, v, node, how):
    """(exact or None, elem, lo, hi, unord)"""
    un = engine.unordered(st, v)
    x = engine.exact_elems(st, v)
    if x is not None:
        return x, joinall(x), len(x), len(x), un
    el, lo, hi = engine.summary_elems(st, v, node)
    return None, el, lo, hi, un


@b("list")
def b_list(engine, st, args, kwargs, node):
    if not args:
        return [(st, V(engine.new_list(st, node, [])))]
    x, el, lo, hi, un = _collect(engine, st, args[0], node, "list")
    if x is not None and not un:
        return [(st, V(engine.new_list(st, node, x)))]
    if not el and lo == 0 and not args[0]:
        return []
    r = engine.new_list(st, node, None, el, lo, hi, un)
    has = certain_members(st, args[0])
    if has:
        st.put(r.addr, st.get(r.addr).but(has=has))
    src = engine.key_src(args[0])
    if src in engine.seq_of:
        engine.seq_of[r.addr] = (st.get(r.addr).elem,) + engine.seq_of[src][1:]
    if src in engine.once_of:
        engine.once_of[r.addr] = (st.get(r.addr).elem,) + engine.once_of[src][1:]
    return [(st, V(r))]


def certain_members(st, v):
    """Marks of what iterating v certainly yields."""
    if len(v) != 1:
        return frozenset()
    (a,) = v
    o = st.get(a.addr) if isinstance(a, (R, W)) else None
    if isinstance(o, ListO):
        return o.certain()
    if isinstance(o, DictO):
        return frozenset(k for k, (_, m) in o.ent.items() if not m and k.__class__ is C and k.t == "str")
    return frozenset()


@b("tuple")
def b_tuple(engine, st, args, kwargs, node):
    if not args:
        return ret(st, T([]))
    x, el, lo, hi, un = _collect(engine, st, args[0], node, "tuple")
    if un:
        engine.check_order(st, args[0], node, "tuple", node)
    if x is not None:
        return ret(st, T(x))
    return ret(st, TN(el))


@b("set", "frozenset")
def b_set(engine, st, args, kwargs, node):
    if not args:
        return [(st, V(engine.alloc(st, node, SetO(frozenset()), "s")))]
    return [(st, V(engine.alloc(st, node, to_set(engine, st, args[0], node), "s")))]


@b("dict")
def b_dict(engine, st, args, kwargs, node):
    r = engine.alloc(st, node, DictO({}), "d")
    for v in args:
        engine.dict_update(st, r.addr, v)
    if len(args) == 1 and not kwargs and engine.key_src(args[0]) is not None:
        engine.note_keys(r.addr, engine.key_src(args[0]))
    for k, (v, m) in kwargs.items():
        if k in ("*", "**"):
            o = st.get(r.addr)
            st.put(r.addr, o.but(okey=join(o.okey, VTOP), oval=join(o.oval, v)))
            continue
        engine.dict_put(st, r.addr, Cv(k), v)
    return [(st, V(r))]


@ext("builtins.dict.fromkeys", "collections.OrderedDict.fromkeys")
def b_fromkeys(engine, st, args, kwargs, node):
    el, lo, _ = engine.summary_elems(st, args[0], node)
    val = args[1] if len(args) > 1 else VNONE
    okey, _bad = engine.hashable(st, el, node) if hasattr(engine, "hashable") else (el, None)
    x = engine.exact_elems(st, args[0])
    sure = [next(iter(v)) for v in x if len(v) == 1] if x is not None else sorted(certain_members(st, args[0]), key=repr)
    ent = {k: (val, False) for k in sure if k.__class__ is C and k.t == "str"}
    if x is not None and len(ent) == len({next(iter(v)) for v in x if len(v) == 1}) and all(len(v) == 1 for v in x):
        okey = EMPTY
    r = engine.alloc(st, node, DictO(ent, okey, val if okey else EMPTY), "d")
    if engine.key_src(args[0]) is not None:
        engine.note_keys(r.addr, engine.key_src(args[0]))
    return [(st, V(r))]


@ext("collections.OrderedDict")
def b_odict(engine, st, args, kwargs, node):
    return b_dict(engine, st, args, kwargs, node)


@ext("collections.defaultdict")
def b_ddict(engine, st, args, kwargs, node):
    d = args[0] if args else None
    r = engine.alloc(st, node, DictO({}, dflt=None if d is None or d <= VNONE else d), "d")
    for v in args[1:]:
        engine.dict_update(st, r.addr, v)
    return [(st, V(r))]


@ext("collections.Counter")
def b_counter(engine, st, args, kwargs, node):
    el = EMPTY
    if args:
        el, _, _ = engine.summary_elems(st, args[0], node)
    r = engine.alloc(st, node, DictO({}, el, V(I(1, None)), V(Ext("builtins.int"))), "d")
    return [(st, V(r))]


@ext("collections.deque")
def b_deque(engine, st, args, kwargs, node):
    if not args:
        return [(st, V(engine.new_list(st, node, [])))]
    return b_list(engine, st, args[:1], {}, node)


@b("sorted")
def b_sorted(engine, st, args, kwargs, node):
    from .m_str import _sort_check

    x, el, lo, hi, un = _collect(engine, st, args[0], node, "sorted")
    if "key" not in kwargs:
        un = None
        # tuples of distinct keys sort totally
    if hi is None or hi > 1:
        _sort_check(engine, st, el, kwargs, node)
    return [(st, V(engine.new_list(st, node, None, el, lo, hi, un)))]


@b("reversed")
def b_reversed(engine, st, args, kwargs, node):
    x, el, lo, hi, un = _collect(engine, st, args[0], node, "reversed")
    if x is not None:
        return [(st, V(engine.new_list(st, node, list(reversed(x)), unord=un)))]
    return [(st, V(engine.new_list(st, node, None, el, lo, hi, un)))]


@b("enumerate")
def b_enumerate(engine, st, args, kwargs, node):
    x, el, lo, hi, un = _collect(engine, st, args[0], node, "enumerate")
    start = arg(args, kwargs, 1, "start", Cv(0))
    ok, s0 = const1(start)
    if x is not None and ok and isinstance(s0, int):
        return [(st, V(engine.new_list(st, node, [V(T([Cv(s0 + i), v])) for i, v in enumerate(x)], unord=un)))]
    e = frozenset(T([V(I(s0 if ok else None, None)), g]) for g in engine.split_value(el)) if el else EMPTY
    r = engine.new_list(st, node, None, e, lo, hi, un)
    src = engine.key_src(args[0])

    def numbered(v):
        return frozenset(T([V(I(s0 if ok else None, None)), g]) for g in engine.split_value(v)) if v else v

    if src in engine.seq_of:
        _, seq, rest = engine.seq_of[src]
        engine.seq_of[r.addr] = (st.get(r.addr).elem, [(numbered(v), maybe) for v, maybe in seq], numbered(rest))
    if src in engine.once_of:
        engine.once_of[r.addr] = (st.get(r.addr).elem,) + engine.once_of[src][1:]
    return [(st, V(r))]


@b("zip")
def b_zip(engine, st, args, kwargs, node):
    cols = [_collect(engine, st, v, node, "zip") for v in args]
    un = next((c[4] for c in cols if c[4]), None)
    if cols and all(c[0] is not None for c in cols):
        return [(st, V(engine.new_list(st, node, [V(T(list(t))) for t in zip(*[c[0] for c in cols])], unord=un)))]
    if not cols:
        return [(st, V(engine.new_list(st, node, [])))]
    his = [c[3] for c in cols if c[3] is not None]
    return [(st, V(engine.new_list(st, node, None, V(T([c[1] for c in cols])), min(c[2] for c in cols),
                                   min(his) if his else None, un)))]


@b("map")
def b_map(engine, st, args, kwargs, node):
    x, el, lo, hi, un = _collect(engine, st, args[1], node, "map")
    if not el:
        return [(st, V(engine.new_list(st, node, [])))]
    out = []
    for g in ([el] if x is None else [None]):
        if x is None:
            for s, v in engine.call(st, args[0], [el], {}, node):
                out.append((s, V(engine.new_list(s, node, None, v, lo, hi, un))))
        else:
            cur = [(st, [])]
            for e in x:
                nxt = []
                for s, acc in cur:
                    for s2, v in engine.call(s, args[0], [e], {}, node):
                        nxt.append((s2, acc + [v]))
                cur = engine.merge_many(nxt) if len(nxt) > 3 else nxt
            for s, acc in cur:
                out.append((s, V(engine.new_list(s, node, acc, unord=un))))
    return out


@b("filter")
def b_filter(engine, st, args, kwargs, node):
    x, el, lo, hi, un = _collect(engine, st, args[1], node, "filter")
    keep = set()
    s = st
    for a in el:
        if args[0] <= VNONE:
            tv, _, t, _ = engine.truth(s.fork(), V(a), node)
            keep |= tv
        else:
            for s2, v in engine.call(s.fork(), args[0], [V(a)], {}, node):
                tv, _, t, _ = engine.truth(s2, v, node)
                if t is not None:
                    keep.add(a)
    return [(st, V(engine.new_list(st, node, None, frozenset(keep), 0, hi, un)))]


@b("any", "all")
def b_any(engine, st, args, kwargs, node):
    x, el, lo, hi, un = _collect(engine, st, args[0], node, "any")
    if x is not None:
        isall = getattr(getattr(node, "func", None), "id", "") == "all"
        vals = set()
        for v in x:
            tv, fv, _, _ = engine.truth(st.fork(), v, node)
            vals.add((bool(tv), bool(fv)))
        if not vals:
            return ret(st, TRUE if isall else FALSE)
        if isall:
            if all(t and not f for t, f in vals):
                return ret(st, TRUE)
            if any(f and not t for t, f in vals):
                return ret(st, FALSE)
        else:
            if any(t and not f for t, f in vals):
                return ret(st, TRUE)
            if all(f and not t for t, f in vals):
                return ret(st, FALSE)
    return [(st, VBOOL)]


@b("min", "max")
def b_min(engine, st, args, kwargs, node):
    from .m_str import _sort_check

    if len(args) == 1:
        x, el, lo, hi, un = _collect(engine, st, args[0], node, "min")
        if "default" in kwargs:
            el = join(el, kwargs["default"][0])
        elif lo == 0:
            sure = True
            for a in args[0]:
                o = seq_obj(st, a)
                if o is None or not getattr(o, "sure", True):
                    sure = False
            engine.raise_exc(st, "ValueError", node, "min()/max() of a possibly empty sequence", weak=not sure)
        if un and "key" in kwargs:
            engine.check_order(st, args[0], node, "index", node)
        _sort_check(engine, st, el, {k: v for k, v in kwargs.items() if k == "key"}, node)
        return [(st, el)] if el else []
    el = joinall(args)
    _sort_check(engine, st, el, {k: v for k, v in kwargs.items() if k == "key"}, node)
    if all(inty(a) for a in el):
        nm = getattr(getattr(node, "func", None), "id", "")
        los = [rng(a)[0] for a in el]
        his = [rng(a)[1] for a in el]
        percol = [[rng(a) for a in v] for v in args]
        if nm == "max":
            lows = [None if any(x[0] is None for x in col) else min(x[0] for x in col) for col in percol]
            lows = [x for x in lows if x is not None]
            hi = None if any(h is None for h in his) else max(his)
            return ret(st, I(max(lows) if lows else None, hi, None, any(isbig(a) for a in el)))
        if nm == "min":
            hs = [None if any(x[1] is None for x in col) else max(x[1] for x in col) for col in percol]
            hs = [x for x in hs if x is not None]
            lo = None if any(h is None for h in los) else min(los)
            return ret(st, I(lo, min(hs) if hs else None, None, any(isbig(a) for a in el) and not hs))
    return [(st, el)]


@b("sum")
def b_sum(engine, st, args, kwargs, node):
    x, el, lo, hi, un = _collect(engine, st, args[0], node, "sum")
    start = args[1] if len(args) > 1 else kwargs.get("start", (EMPTY, True))[0]
    parts = [a for v in (el, start) for a in v if isinstance(a, (R, W)) and isinstance(st.get(a.addr), ListO)]
    if parts:
        # concatenation of lists
        got = EMPTY
        for a in parts:
            got = got | engine.summary_elems(st, V(a), node)[0]
            un = un or engine.unordered(st, V(a))
        for a in el | start:
            if a not in parts and not a.__class__.__name__ == "Top":
                engine.raise_exc(st, "TypeError", node, f"sum of lists and {_e()._desc(a)}", True)
        seq, least = [], 0
        for v in ([start] if start else []) + list(x if x is not None else []):
            lists = [st.get(a.addr) if isinstance(a, (R, W)) else None for a in v]
            if not lists or not all(isinstance(o, ListO) for o in lists):
                seq = None
                break
            least += min(o.lo or 0 for o in lists)
            if seq is not None:
                seq = seq + list(lists[0].exact) if len(lists) == 1 and lists[0].exact is not None else None
        if x is not None and not un:
            if seq is not None:
                return [(st, V(engine.new_list(st, node, seq)))]
            return [(st, V(engine.new_list(st, node, None, got, least, None, un)))]
        return [(st, V(engine.new_list(st, node, None, got, 0, None, un)))]
    for a in el:
        if stringy(a) or (isinstance(a, C) and a.v is None):
            engine.raise_exc(st, "TypeError", node, f"sum of {_e()._desc(a)}")
    if any(floaty(a) for a in el):
        return ret(st, F())
    return ret(st, I(0 if all(inty(a) and (rng(a)[0] or 0) >= 0 and rng(a)[0] is not None for a in el) else None, None))


@b("abs")
def b_abs(engine, st, args, kwargs, node):
    res = set()
    for a in args[0]:
        if inty(a):
            lo, hi = rng(a)
            if lo is not None and hi is not None:
                res.add(I(0 if lo <= 0 <= hi else min(abs(lo), abs(hi)), max(abs(lo), abs(hi))))
            else:
                res.add(I(max(0, lo) if lo is not None else 0, None, None, isbig(a)))
        elif floaty(a):
            res.add(F())
        elif isinstance(a, (S, R)) or (isinstance(a, C) and a is not UNBOUND):
            engine.raise_exc(st, "TypeError", node, f"abs of {_e()._desc(a, st)}")
        else:
            res.add(a)
    return [(st, frozenset(res))] if res else []


@b("round")
def b_round(engine, st, args, kwargs, node):
    if len(args) > 1:
        return ret(st, F())
    return ret(st, I())


@b("divmod")
def b_divmod(engine, st, args, kwargs, node):
    return ret(st, T([V(I()), V(I())]))


@b("pow")
def b_pow(engine, st, args, kwargs, node):
    return ret(st, I())


@b("ord")
def b_ord(engine, st, args, kwargs, node):
    for a in args[0]:
        if isinstance(a, C) and isinstance(a.v, str) and len(a.v) != 1 or isinstance(a, S) and a.ml == 0:
            engine.raise_exc(st, "TypeError", node, "ord() of a string whose length may not be 1")
    return ret(st, I(0, 0x10FFFF))


@b("chr")
def b_chr(engine, st, args, kwargs, node):
    return ret(st, S(ml=1, mx=1, taint=frozenset(["user"])))


@b("hex", "oct", "bin")
def b_hex(engine, st, args, kwargs, node):
    return ret(st, S(ml=1))


@b("bytes", "bytearray")
def b_bytes(engine, st, args, kwargs, node):
    if not args:
        return ret(st, C(b""))
    if len(args) > 1:
        from .m_str import str_method

        out = []
        for a in args[0]:
            if stringy(a):
                out.extend(str_method(engine, st, a, "encode", args[1:], kwargs, node))
        return out or ret(st, B())
    return ret(st, B(taint=engine.taint(st, args[0])))


@b("range")
def b_range(engine, st, args, kwargs, node):
    cs = [const1(v) for v in args]
    if all(ok and isinstance(x, int) for ok, x in cs):
        r = range(*[x for _, x in cs])
        if len(r) <= (40 if not engine.scenario else 300):
            return [(st, V(engine.new_list(st, node, [Cv(i) for i in r])))]
        return [(st, V(engine.new_list(st, node, None, V(I(min(r), max(r))), len(r), len(r))))]
    for v in args:
        for a in v:
            if floaty(a) or stringy(a) or (isinstance(a, C) and a.v is None):
                engine.raise_exc(st, "TypeError", node, f"range({_e()._desc(a)})")
    lo = 0
    hi = None
    if len(args) >= 2:
        l = [rng(a)[0] if inty(a) else None for a in args[0]]
        lo = None if None in l else min(l)
    stop = args[0] if len(args) == 1 else args[1]
    hs = [rng(a)[1] if inty(a) else None for a in stop]
    if None not in hs and hs:
        hi = max(hs) - 1
    return [(st, V(engine.new_list(st, node, None, V(I(lo, hi)), 0, None)))]


@b("iter")
def b_iter(engine, st, args, kwargs, node):
    return [(st, args[0])]


@b("next")
def b_next(engine, st, args, kwargs, node):
    x, el, lo, hi, un = _collect(engine, st, args[0], node, "next")
    if un:
        engine.check_order(st, args[0], node, "index", node)
    d = args[1] if len(args) > 1 else None
    if d is None:
        if lo == 0:
            engine.raise_exc(st, "StopIteration", node, "next() of a possibly exhausted iterator",
                             weak=not all(getattr(seq_obj(st, a), "sure", False) for a in args[0]))
        if x is not None:
            return [(st, x[0])] if x else []
        return [(st, el)] if el else []
    if x:
        return [(st, x[0])]
    v = el if lo else join(el, d)
    return [(st, v)] if v else []


@b("isinstance")
def b_isinstance(engine, st, args, kwargs, node):
    types = type_list(engine, args[1])
    if types is None:
        return [(st, VBOOL)]
    t = f = False
    for a in args[0]:
        x, y = inst_cases(engine, st, a, types, node)
        t = t or bool(x)
        f = f or bool(y)
    return [(st, frozenset(([TRUE] if t else []) + ([FALSE] if f else [])))]


@b("issubclass")
def b_issubclass(engine, st, args, kwargs, node):
    types = type_list(engine, args[1])
    res = set()
    for a in args[0]:
        if isinstance(a, GA):
            a = a.origin
        if isinstance(a, Cls) and types is not None:
            mro = engine.classes[a.qual].mro
            res.add(C(any(t in mro or (isinstance(t, Ext) and t.path == "builtins.object") for t in types)))
        elif isinstance(a, Ext) and types is not None:
            if not is_class_path(a.path):
                engine.raise_exc(st, "TypeError", node, f"issubclass({a.path})", weak=True)
            res.add(C(a in types))
        elif isinstance(a, (C, S, I, T, EI, R)) and a is not UNBOUND:
            engine.raise_exc(st, "TypeError", node, f"issubclass() arg 1 is {_e()._desc(a, st)}", weak=isinstance(a, (EI, R)))
        else:
            res |= VBOOL
    return [(st, frozenset(res))] if res else []


def is_class_path(p):
    import builtins

    n = p.split(".")[-1]
    if p.startswith("builtins."):
        return isinstance(getattr(builtins, n, None), type)
    return n[:1].isupper()


@b("callable")
def b_callable(engine, st, args, kwargs, node):
    res = set()
    for a in args[0]:
        if isinstance(a, (Fn, BM, Partial, Cls, XM, SM)):
            res.add(TRUE)
        elif isinstance(a, (C, S, B, I, F, T, TN)) and a is not UNBOUND:
            res.add(FALSE)
        else:
            res |= VBOOL
    return [(st, frozenset(res))]


@b("hasattr")
def b_hasattr(engine, st, args, kwargs, node):
    res = set()
    for a in args[0]:
        for n in args[1]:
            h = has_attr(engine, st, a, n.v) if isinstance(n, C) and isinstance(n.v, str) else None
            if h is not False:
                res.add(TRUE)
            if h is not True:
                res.add(FALSE)
    return [(st, frozenset(res))]


@b("getattr")
def b_getattr(engine, st, args, kwargs, node):
    d = args[2] if len(args) > 2 else None
    out = []
    vals = EMPTY
    for a in args[0]:
        for n in args[1]:
            if isinstance(n, C) and isinstance(n.v, str):
                h = has_attr(engine, st, a, n.v)
                if h is False and d is not None:
                    vals |= d
                    continue
                r = engine.attr_atom(st, a, n.v, node)
                if r is None:
                    if d is not None:
                        vals |= d
                    else:
                        engine.raise_exc(st, "AttributeError", node, f"getattr {n.v} on {_e()._desc(a, st)}")
                elif isinstance(r, list):
                    out.extend(r)
                else:
                    vals |= r
                    if h is None and d is not None:
                        vals |= d
            else:
                # name only partly known
                pre = n.has if isinstance(n, S) else frozenset()
                names = attr_names(engine, st, a)
                got = EMPTY
                for x in sorted(names):
                    if isinstance(n, S):
                        if any(p not in x for p in pre):
                            continue
                        if n.ml and len(x) < n.ml:
                            continue
                        if x.startswith("__"):
                            if not any(p in x for p in pre):
                                continue
                    r = engine.attr_atom(st, a, x, node)
                    if isinstance(r, frozenset):
                        got |= r
                vals |= got
                if d is not None:
                    vals |= d
                else:
                    engine.raise_exc(st, "AttributeError", node, f"getattr of a computed name on {_e()._desc(a, st)}",
                                     weak=isinstance(n, Top) or isinstance(a, Top))
    if vals:
        out.append((st, norm(vals)))
    return out


def attr_names(engine, st, a):
    names = set()
    if isinstance(a, (R, W)):
        o = st.get(a.addr)
        if isinstance(o, Obj):
            names |= set(n for n in o.attrs if n[0] != "$")
            cls = o.cls
        else:
            cls = None
    elif isinstance(a, Cls):
        cls = a.qual
    elif isinstance(a, Mod):
        o = st.get(("mod", a.name))
        return set(o.attrs) if o else set()
    else:
        cls = None
    if cls in engine.classes:
        for m in engine.classes[cls].mro:
            if isinstance(m, Cls):
                o = st.get(("cls", m.qual))
                if o:
                    names |= set(o.attrs)
    return names


@b("setattr")
def b_setattr(engine, st, args, kwargs, node):
    out = []
    for n in args[1]:
        if isinstance(n, C) and isinstance(n.v, str):
            out.extend((s, VNONE) for s in engine.set_attr(st.fork(), args[0], n.v, args[2], node))
        else:
            out.append((st.fork(), VNONE))
    return out


@b("delattr")
def b_delattr(engine, st, args, kwargs, node):
    return ret(st, NONE)


@b("type")
def b_type(engine, st, args, kwargs, node):
    if len(args) != 1:
        return [(st, VTOP)]
    res = set()
    for a in args[0]:
        n = pyname(engine, st, a)
        if n in engine.classes:
            res.add(Cls(n))
        elif isinstance(a, C) and a is not UNBOUND:
            res.add(Ext("builtins." + a.t))
        elif n in ("str", "int", "float", "bytes", "tuple", "list", "dict", "set"):
            res.add(Ext("builtins." + n))
        elif isinstance(a, EI):
            res.add(Ext(a.typ))
        else:
            res.add(TOP)
    return [(st, frozenset(res))]


@b("print")
def b_print(engine, st, args, kwargs, node):
    for v in args:
        st2 = engine.to_str(st, v, node)
        if st2:
            st = st2[0][0]
    return ret(st, NONE)


@b("id", "hash")
def b_id(engine, st, args, kwargs, node):
    if getattr(getattr(node, "func", None), "id", "") == "hash":
        engine.check_hashable(st, args[0], node)
    return ret(st, I())


@b("vars")
def b_vars(engine, st, args, kwargs, node):
    if args:
        return engine.get_attr(st, args[0], "__dict__", node)
    return [(st, VTOP)]


@b("dir")
def b_dir(engine, st, args, kwargs, node):
    names = set()
    for a in args[0]:
        names |= attr_names(engine, st, a)
    return [(st, V(engine.new_list(st, node, None, frozenset(C(n) for n in names), len(names), len(names))))]


@b("input")
def b_input(engine, st, args, kwargs, node):
    return ret(st, S(taint=frozenset(["user"])))


@b("object")
def b_object(engine, st, args, kwargs, node):
    return [(st, V(engine.alloc(st, node, ExtO("object"), "obj")))]


@b("slice")
def b_slice(engine, st, args, kwargs, node):
    a = list(args)
    if len(a) == 1:
        a = [VNONE, a[0], VNONE]
    while len(a) < 3:
        a.append(VNONE)
    return ret(st, EI("slice", frozenset([T(a)])))


@b("exec", "eval", "compile", "__import__", "globals")
def b_dyn(engine, st, args, kwargs, node):
    engine.unsup(node, "dynamic code")
    return [(st, VTOP)]


@b("property")
def b_property(engine, st, args, kwargs, node):
    (f,) = args[0] if args and len(args[0]) == 1 else (TOP,)
    g = None
    if len(args) > 1 and len(args[1]) == 1:
        (g,) = args[1]
        if isinstance(g, C):
            g = None
    return ret(st, Prop(f, g))


@b("staticmethod", "classmethod")
def b_sm(engine, st, args, kwargs, node):
    (f,) = args[0] if len(args[0]) == 1 else (TOP,)
    return ret(st, SM(f))


@intrinsic("noop")
def i_noop(engine, st, args, kwargs, node):
    return ret(st, NONE)


@intrinsic("any_str")
def i_str(engine, st, args, kwargs, node):
    labs = [const1(v)[1] for v in args]
    return ret(st, S(ml=0, taint=frozenset([x for x in labs if isinstance(x, str)] or ["wire"])))


@intrinsic("any_bytes")
def i_bytes(engine, st, args, kwargs, node):
    ok, sym = const1(args[0]) if args else (False, None)
    return ret(st, B(taint=WIRE, sym=sym if ok else None))


@intrinsic("sized_bytes")
def i_sized(engine, st, args, kwargs, node):
    """sized_bytes(lo, hi): any bytes of lo to hi characters (hi None: or more)."""
    return ret(st, B(taint=WIRE, ml=const1(args[0])[1], mx=const1(args[1])[1]))


@intrinsic("observe")
def i_observe(engine, st, args, kwargs, node):
    """observe(label, value): note the value in the scenario's log."""
    h = engine.hooks.get("observe")
    if h:
        h(st, const1(args[0])[1], args[1])
    return [(st, VNONE)]


@intrinsic("ci_bytes")
def i_cib(engine, st, args, kwargs, node):
    return ret(st, B(ci=const1(args[0])[1], ml=len(const1(args[0])[1]), taint=WIRE))


@intrinsic("other_bytes")
def i_ob(engine, st, args, kwargs, node):
    return ret(st, B(other=True, ml=0, taint=WIRE))


@intrinsic("any_int")
def i_int(engine, st, args, kwargs, node):
    lo = const1(args[0])[1] if args else None
    hi = const1(args[1])[1] if len(args) > 1 else None
    return ret(st, I(lo, hi))


@intrinsic("big_int")
def i_bint(engine, st, args, kwargs, node):
    return ret(st, I(None, None, None, True))


@intrinsic("any_float")
def i_float(engine, st, args, kwargs, node):
    return ret(st, F())


@intrinsic("any_bool")
def i_bool(engine, st, args, kwargs, node):
    return [(st, VBOOL)]


@intrinsic("choice")
def i_choice(engine, st, args, kwargs, node):
    return [(st.fork(), v) for v in args]


@intrinsic("joined")
def i_joined(engine, st, args, kwargs, node):
    return [(st, joinall(args))]


@intrinsic("some")
def i_some(engine, st, args, kwargs, node):
    """some(x): a list of any length of values like x; some(x, lo)"""
    lo = const1(args[1])[1] if len(args) > 1 else 0
    return [(st, V(engine.new_list(st, node, None, args[0], lo, None)))]


@intrinsic("some_of")
def i_some_of(engine, st, args, kwargs, node):
    """some_of(iterable): any list of members of it."""
    el, _, _ = engine.summary_elems(st, args[0], node)
    return [(st, V(engine.new_list(st, node, None, el, 0, None)))]


@intrinsic("top")
def i_top(engine, st, args, kwargs, node):
    return [(st, VTOP)]


@intrinsic("header_list")
def i_headers(engine, st, args, kwargs, node):
    """header_list([names...]): any list of (name, value) pairs with those names in any case, plus one unknown."""
    names = engine.exact_elems(st, args[0])
    elems = set()
    for v in names:
        ok, n = const1(v)
        elems.add(T([V(B(ci=n, ml=len(n), taint=WIRE)), V(B(taint=WIRE))]))
    ok, other = const1(args[1]) if len(args) > 1 else (True, True)
    if other:
        elems.add(T([V(B(other=True, ml=0, taint=WIRE)), V(B(taint=WIRE))]))
        for v in names:
            elems.add(T([V(B(other=True, ml=1, taint=WIRE, sym=("pad", (const1(v)[1],)))), V(B(taint=WIRE))]))
    return [(st, V(engine.new_list(st, node, None, frozenset(elems), 0, None)))]
