"""Operators: arithmetic, formatting, comparison."""

from __future__ import annotations

import ast
import re as _re

from .atoms import *
from .m_core import *
from .state import DictO, ExtO, ListO, Obj, SetO, UNBOUND, Unknown, join_states


def _eng():
    from . import engine

    return engine


# ---------------------------------------------------------------- arithmetic
def _lin(a):
    if isinstance(a, C):
        return (("", int(a.v)),)
    return a.lin


def _lin_add(x, y, sgn=1):
    if x is None or y is None:
        return None
    d = dict(x)
    for k, c in y:
        d[k] = d.get(k, 0) + sgn * c
    return tuple(sorted((k, c) for k, c in d.items() if c or k == ""))


def int_add(a, b, sgn=1):
    if isinstance(a, C) and isinstance(b, C):
        return C(int(a.v) + sgn * int(b.v))
    al, ah = rng(a)
    bl, bh = rng(b)
    if sgn < 0:
        bl, bh = (None if bh is None else -bh), (None if bl is None else -bl)
    return I(None if al is None or bl is None else al + bl,
             None if ah is None or bh is None else ah + bh,
             _lin_add(_lin(a), _lin(b), sgn), isbig(a) or isbig(b))


def int_mul(a, b):
    if isinstance(a, C) and isinstance(b, C):
        return C(int(a.v) * int(b.v))
    al, ah = rng(a)
    bl, bh = rng(b)
    lo = hi = None
    if None not in (al, ah, bl, bh):
        ps = [al * bl, al * bh, ah * bl, ah * bh]
        lo, hi = min(ps), max(ps)
    elif al is not None and bl is not None and al >= 0 and bl >= 0:
        lo = al * bl
    return I(lo, hi, None, isbig(a) or isbig(b))


DT = ("datetime.datetime", "datetime.timedelta", "decimal.Decimal")


def binop(engine, op, l, r, st, node, inplace=False):
    res = set()
    outs = []
    for a in l:
        for b_ in r:
            x = binop1(engine, op, a, b_, st, node, inplace)
            if x is None:
                continue
            if isinstance(x, list):
                outs.extend(x)
            else:
                res |= x
    if res:
        outs.append((st, norm(frozenset(res))))
    return outs


_SYM = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
        ast.Pow: "**", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}


def type_error(engine, st, node, op, a, b_):
    d = _eng()._desc
    engine.raise_exc(st, "TypeError", node, f"{d(a, st)} {_SYM.get(type(op), '?')} {d(b_, st)}")


def seq_obj(st, a):
    if isinstance(a, (R, W)):
        return st.get(a.addr)
    return None


def binop1(engine, op, a, b_, st, node, inplace):
    if isinstance(a, Top) or isinstance(b_, Top) or a is UNBOUND or b_ is UNBOUND:
        return VTOP
    opk = type(op)
    # typing unions
    if opk is ast.BitOr and (isinstance(a, (Cls, Ext, GA)) or isinstance(b_, (Cls, Ext, GA))):
        return V(Ext("typing.Union"))
    if opk is ast.Mod and (stringy(a)):
        return str_mod(engine, st, a, b_, node)
    if opk is ast.Mod and bytesy(a):
        return V(B())
    # numbers
    if (inty(a) or floaty(a)) and (inty(b_) or floaty(b_)):
        return num_op(engine, opk, op, a, b_, st, node)
    if opk is ast.Add:
        if stringy(a) and stringy(b_):
            return engine.concat([V(a), V(b_)])
        if bytesy(a) and bytesy(b_):
            if isinstance(a, C) and isinstance(b_, C):
                return V(C(a.v + b_.v))
            am = len(a.v) if isinstance(a, C) else a.ml
            bm = len(b_.v) if isinstance(b_, C) else b_.ml
            t = (a.taint if isinstance(a, B) else frozenset()) | (b_.taint if isinstance(b_, B) else frozenset())
            ax, bx = [len(x.v) if isinstance(x, C) else x.mx for x in (a, b_)]
            return V(B(ml=None if am is None or bm is None else am + bm, taint=t, mx=None if ax is None or bx is None else ax + bx))
        if isinstance(a, T) and isinstance(b_, T):
            return V(T(list(a.elems) + list(b_.elems)))
        if isinstance(a, (T, TN)) and isinstance(b_, (T, TN)):
            e = EMPTY
            for x in (a, b_):
                e = join(e, joinall(x.elems) if isinstance(x, T) else x.elem)
            return V(TN(e))
    oa, ob = seq_obj(st, a), seq_obj(st, b_)
    if opk is ast.Add and isinstance(oa, ListO):
        if isinstance(ob, ListO) or inplace:
            if inplace:
                list_extend(engine, st, a, V(b_), node)
                return V(R(a.addr))
            if oa.exact is not None and ob.exact is not None:
                return V(engine.new_list(st, node, list(oa.exact) + list(ob.exact), unord=oa.unord or ob.unord))
            return V(engine.new_list(st, node, None, join(oa.elem, ob.elem), oa.lo + ob.lo,
                                     None if oa.hi is None or ob.hi is None else oa.hi + ob.hi,
                                     oa.unord or ob.unord, oa.sure and ob.sure))
    if opk is ast.Mult:
        for x, y in ((a, b_), (b_, a)):
            if stringy(x) and inty(y):
                if isinstance(x, C) and isinstance(y, C) and len(x.v) * max(0, int(y.v)) < 2000:
                    return V(C(x.v * int(y.v)))
                return V(S(ml=None, taint=x.taint if isinstance(x, S) else frozenset()))
            if bytesy(x) and inty(y):
                if isinstance(x, C) and isinstance(y, C) and y.t == "int" and len(x.v) * max(0, y.v) < 20000:
                    return V(C(x.v * y.v))
                return V(B(ml=None))
            ox = seq_obj(st, x)
            if isinstance(ox, ListO) and inty(y):
                return V(engine.new_list(st, node, None, ox.elem, 0, None, ox.unord, False))
            if isinstance(x, (T, TN)) and inty(y):
                return V(TN(joinall(x.elems) if isinstance(x, T) else x.elem))
    if isinstance(oa, SetO) and isinstance(ob, SetO) and opk in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
        new = set_op(opk, oa, ob)
        if inplace:
            engine.put(st, a.addr, new)
            return V(R(a.addr))
        return V(engine.alloc(st, node, new, "s"))
    if isinstance(oa, DictO) and isinstance(ob, DictO) and opk is ast.BitOr:
        if inplace:
            engine.dict_update(st, a.addr, V(b_))
            return V(R(a.addr))
        r = engine.alloc(st, node, DictO({}), "d")
        engine.dict_update(st, r.addr, V(a))
        engine.dict_update(st, r.addr, V(b_))
        return V(r)
    # user-defined operators
    for x, y, pre in ((a, b_, "__"), (b_, a, "__r")):
        ox = seq_obj(st, x)
        if isinstance(ox, Obj) and ox.cls in engine.classes:
            nm = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Mod: "mod", ast.Div: "truediv",
                  ast.BitOr: "or", ast.BitAnd: "and"}.get(opk)
            f = engine.class_lookup(st, ox.cls, f"{pre}{nm}__") if nm else None
            if f is not None:
                return engine.call(st, V(*[BM(R(x.addr), g) for g in f]), [V(y)], {}, node)
            if any(isinstance(z, Ext) and z.path not in _eng()._PLAIN_BASES for z in engine.classes[ox.cls].mro):
                return VTOP
    # library values
    ta = a.typ if isinstance(a, EI) else None
    tb = b_.typ if isinstance(b_, EI) else None
    if ta or tb:
        if ta == tb == "datetime.datetime":
            return V(EI("datetime.timedelta")) if opk is ast.Sub else bad(engine, st, node, op, a, b_)
        if ta in DT and tb in DT:
            if "datetime.datetime" in (ta, tb) and opk in (ast.Add, ast.Sub):
                engine.raise_exc(st, "OverflowError", node, "date arithmetic", weak=True)
                return V(EI("datetime.datetime"))
            return V(EI(ta))
        if ta == "datetime.timedelta" and (inty(b_) or floaty(b_)):
            return V(EI(ta))
        if "decimal.Decimal" in (ta, tb):
            if inty(a) or inty(b_):
                return V(EI("decimal.Decimal"))
            if floaty(a) or floaty(b_):
                return bad(engine, st, node, op, a, b_)
        if ta in ("http_sf.Token", "http_sf.DisplayString") or tb in ("http_sf.Token", "http_sf.DisplayString"):
            if opk in (ast.Add, ast.Mod) and (stringy(a) or stringy(b_) or ta == tb):
                return V(EI(ta or tb))
            return bad(engine, st, node, op, a, b_)
        return VTOP
    if isinstance(a, J) or isinstance(b_, J):
        type_error(engine, st, node, op, a, b_)
        return V(J())
    if known(a, st) and known(b_, st):
        return bad(engine, st, node, op, a, b_)
    return VTOP


def bad(engine, st, node, op, a, b_):
    type_error(engine, st, node, op, a, b_)
    return None


def known(a, st):
    if isinstance(a, (C, S, B, I, F, T, TN, Fn, BM, EnumM, Cls, Partial)):
        return True
    if isinstance(a, (R, W)):
        o = st.get(a.addr)
        if isinstance(o, (ListO, SetO, DictO)):
            return True
        if isinstance(o, Obj) and o.cls:
            return True
    return False


def num_op(engine, opk, op, a, b_, st, node):
    isf = floaty(a) or floaty(b_)
    if isf and (isbig(a) or isbig(b_)) and opk in (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.FloorDiv, ast.Mod):
        engine.raise_exc(st, "OverflowError", node, "int too large to convert to float")
    if opk in (ast.Div, ast.FloorDiv, ast.Mod):
        z = None
        if isinstance(b_, C):
            z = not b_.v
        elif isinstance(b_, I):
            if b_.lo is not None and b_.lo > 0 or b_.hi is not None and b_.hi < 0:
                z = False
            else:
                z = True if b_.lo == 0 else None
        elif isinstance(b_, F):
            z = False if b_.pos else None
        if z is not False:
            engine.raise_exc(st, "ZeroDivisionError", node, "division by a possible zero", weak=z is None)
            if z and isinstance(b_, C):
                return None
        if opk is ast.Div and not isf and (isbig(a) or isbig(b_)):
            engine.raise_exc(st, "OverflowError", node, "integer division result too large for a float")
    if isinstance(a, C) and isinstance(b_, C):
        import operator as o

        f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv,
             ast.Mod: o.mod, ast.Pow: o.pow, ast.BitOr: o.or_, ast.BitAnd: o.and_, ast.BitXor: o.xor,
             ast.LShift: o.lshift, ast.RShift: o.rshift}.get(opk)
        try:
            return V(C(f(a.v, b_.v)))
        except Exception as why:
            engine.raise_exc(st, type(why).__name__, node, "constant arithmetic")
            return None
    if isf or opk is ast.Div:
        return V(F())
    if opk is ast.Add:
        return V(int_add(a, b_))
    if opk is ast.Sub:
        return V(int_add(a, b_, -1))
    if opk is ast.Mult:
        return V(int_mul(a, b_))
    if opk is ast.Mod:
        if isinstance(b_, C) and b_.v > 0:
            return V(I(0, b_.v - 1))
        return V(I(0 if rng(b_)[0] is not None and rng(b_)[0] >= 0 else None, None))
    if opk is ast.FloorDiv:
        if isinstance(b_, C) and b_.v > 0:
            lo, hi = rng(a)
            return V(I(None if lo is None else lo // b_.v, None if hi is None else hi // b_.v, None, isbig(a)))
        return V(I(0 if (rng(a)[0] or -1) >= 0 and (rng(b_)[0] or -1) >= 0 else None, None, None, isbig(a)))
    if opk is ast.BitAnd and isinstance(b_, C) and b_.v >= 0:
        return V(I(0, b_.v))
    return V(I(None, None, None, isbig(a) or isbig(b_)))


def set_op(opk, oa, ob):
    if oa.exact is not None and ob.exact is not None:
        f = {ast.BitOr: frozenset.union, ast.BitAnd: frozenset.intersection, ast.Sub: frozenset.difference,
             ast.BitXor: frozenset.symmetric_difference}[opk]
        return SetO(f(oa.exact, ob.exact))
    if opk is ast.BitOr or opk is ast.BitXor:
        return SetO(None, join(oa.elem, ob.elem), max(oa.lo, ob.lo) if opk is ast.BitOr else 0,
                    None if oa.hi is None or ob.hi is None else oa.hi + ob.hi)
    if opk is ast.BitAnd:
        his = [h for h in (oa.hi, ob.hi) if h is not None]
        elem = oa.elem
        m = _eng()._may_equal
        e2 = frozenset(x for x in ob.elem if any(m(x, y) is not False for y in oa.elem))
        e1 = frozenset(x for x in oa.elem if any(m(x, y) is not False for y in ob.elem))
        if ob.exact is not None:
            elem = e2
        elif oa.exact is not None:
            elem = e1
        else:
            elem = e1
        return SetO(None, elem, 0, min(his) if his else None)
    return SetO(None, oa.elem, 0, oa.hi)


def list_extend(engine, st, a, v, node):
    x = engine.exact_elems(st, v)
    o = st.get(a.addr)
    un = engine.unordered(st, v)
    if x is not None and o.exact is not None and not o.many and len(o.exact) + len(x) <= 64:
        engine.put(st, a.addr, ListO(list(o.exact) + x, unord=o.unord or un))
        return
    el, lo, hi = engine.summary_elems(st, v, node)
    engine.put(st, a.addr, ListO(None, join(o.elem, el), o.lo if o.many else o.lo + lo,
                                 None if o.hi is None or hi is None or o.many else o.hi + hi,
                                 o.unord or un, o.many, o.sure))


# ---------------------------------------------------------------- % formatting
_FMT = _re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+))?[hlL]?(?P<c>.)", _re.S)


def parse_format(fmt):
    """List of ('lit', text) / ('key', name, conv) / ('pos', conv) / ('bad', why)."""
    out = []
    i = 0
    while True:
        j = fmt.find("%", i)
        if j < 0:
            if i < len(fmt):
                out.append(("lit", fmt[i:]))
            return out
        if j > i:
            out.append(("lit", fmt[i:j]))
        # mapping key with nesting
        m = _FMT.match(fmt, j)
        if not m:
            out.append(("bad", "incomplete format"))
            return out
        c = m.group("c")
        if c == "%":
            out.append(("lit", "%"))
        elif c not in "diouxXeEfFgGcrsa":
            out.append(("bad", f"unsupported format character {c!r}"))
            return out
        elif m.group("key") is not None:
            out.append(("key", m.group("key"), c))
        else:
            out.append(("pos", c))
        i = m.end()


def str_mod(engine, st, a, b_, node):
    """str % value; returns V or None."""
    if isinstance(a, S):
        engine.raise_exc(st, "ValueError", node, "% of unknown text", weak=True)
        return V(S(ml=0 if not a.ml else None, taint=a.taint | engine.taint(st, V(b_))))
    parts = parse_format(a.v)
    outs = []
    mapping = None
    ob = seq_obj(st, b_)
    if isinstance(ob, DictO):
        mapping = ob
    npos = sum(1 for p in parts if p[0] == "pos")
    nkey = sum(1 for p in parts if p[0] == "key")
    pos = []
    if isinstance(b_, T):
        pos = list(b_.elems)
        if nkey:
            engine.raise_exc(st, "TypeError", node, "format requires a mapping")
            return None
    elif mapping is None and not isinstance(b_, TN):
        pos = [V(b_)]
    if mapping is None and nkey:
        if known(b_, st) or isinstance(b_, EI):
            engine.raise_exc(st, "TypeError", node, "format requires a mapping")
            return None
    if isinstance(b_, T) and npos != len(pos):
        engine.raise_exc(st, "TypeError", node, "not enough arguments for format string"
                         if npos > len(pos) else "not all arguments converted during string formatting")
        return None
    if not isinstance(b_, (T, TN)) and mapping is None and npos != 1 and known(b_, st):
        engine.raise_exc(st, "TypeError", node, "not all arguments converted during string formatting"
                         if npos == 0 else "not enough arguments for format string")
        return None
    acc = []
    pi = 0
    ok = True
    for p in parts:
        if p[0] == "lit":
            acc.append(Cv(p[1]))
            continue
        if p[0] == "bad":
            engine.raise_exc(st, "ValueError", node, f"{p[1]} in format {a.v[:60]!r}")
            return None
        if p[0] == "key":
            conv = p[2]
            if mapping is not None:
                vals, missing = engine.dict_lookup(st, mapping, Cv(p[1]))
                if missing:
                    engine.raise_exc(st, "KeyError", node, f"format key {p[1]!r} has no value in {a.v[:70]!r}")
                if not vals:
                    ok = False
                    break
            else:
                vals = VTOP
        else:
            conv = p[1]
            vals = pos[pi] if pi < len(pos) else VTOP
            pi += 1
        if conv in "diouxXeEfFgGc":
            for x in vals:
                if stringy(x) or bytesy(x) or (isinstance(x, C) and x.v is None) or isinstance(x, (T, TN, R, Cls)):
                    if conv == "c" and stringy(x):
                        continue
                    engine.raise_exc(st, "TypeError", node, f"%{conv} of {_eng()._desc(x, st)} in format {a.v[:70]!r}")
            acc.append(V(S(ml=1)))
            continue
        r = engine.to_str(st, vals, node)
        acc.append(joinall([v for _, v in r]) if r else V(S()))
    if not ok:
        return None
    if not acc:
        return Cv("")
    return engine.concat(acc)
