"""Comparisons, membership, predicates and the refinements they bring."""

from __future__ import annotations

import ast

from .atoms import *
from .m_core import *
from . import md
from .m_ops import known, seq_obj
from .state import DictO, ExtO, ListO, Obj, SetO, UNBOUND, Unknown


def _e():
    from . import engine

    return engine


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}


def split(engine, st, left, right, tl, tr, fl, fr, l, r):
    """Build refined states. tl/tr (fl/fr): atoms of the left/right operand when true (false)."""
    e = _e()
    ts, fs = [], []
    pl, pr = e._is_path(left), e._is_path(right)
    if tl and tr:
        s = st.fork() if (fl and fr) else st
        if pl and tl != l:
            engine.path_set(s, left, norm(frozenset(tl)))
        if pr and tr != r:
            engine.path_set(s, right, norm(frozenset(tr)))
        ts.append(s)
    if fl and fr:
        s = st
        if pl and fl != l:
            engine.path_set(s, left, norm(frozenset(fl)))
        if pr and fr != r:
            engine.path_set(s, right, norm(frozenset(fr)))
        fs.append(s)
    return ts, fs


def compare(engine, left, op, right, st, l, r, node):
    k = type(op)
    if k in (ast.In, ast.NotIn):
        ts, fs = contains(engine, left, right, st, l, r, node)
        return (ts, fs) if k is ast.In else (fs, ts)
    if k in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot):
        ts, fs = equal(engine, left, right, st, l, r, node, k in (ast.Is, ast.IsNot))
        return (ts, fs) if k in (ast.Eq, ast.Is) else (fs, ts)
    return order(engine, left, op, right, st, l, r, node)


def eq_atoms(engine, st, a, b_, ident):
    r = eq_atoms_(engine, st, a, b_, ident)
    if r is None and engine.scenario:
        e = _e()
        if all(e.const_key(x) or isinstance(x, (Fn, Top)) for x in (a, b_)) and not (ident and a == b_):
            engine.lost(f"comparison of {e._desc(a, st)} and {e._desc(b_, st)}", None)
    return r


def eq_atoms_(engine, st, a, b_, ident):
    """False / True / None."""
    e = _e()
    if a is UNBOUND or b_ is UNBOUND:
        return None
    if isinstance(a, J) or isinstance(b_, J):
        j, o = (a, b_) if isinstance(a, J) else (b_, a)
        if isinstance(o, C):
            kind = {"NoneType": "null"}.get(o.t, o.t)
            if kind not in JKINDS or (kind in j.no):
                return False
        return None
    if isinstance(a, (R, W)) and isinstance(b_, (R, W)):
        oa, ob = st.get(a.addr), st.get(b_.addr)
        if a.addr == b_.addr and oa is not None and not oa.many:
            return True
        if isinstance(oa, Obj) and isinstance(ob, Obj):
            if ident or (oa.cls in engine.classes and engine.class_lookup(st, oa.cls, "__eq__") is None
                         and not engine.classes[oa.cls].dataclass):
                if a.addr != b_.addr:
                    return False
            return None
        if type(oa) is not type(ob) and None not in (oa, ob) and not isinstance(oa, Unknown) and not isinstance(ob, Unknown):
            return False
        return None
    for x, y in ((a, b_), (b_, a)):
        if isinstance(x, (R, W)):
            o = st.get(x.addr)
            if o is None or isinstance(o, Unknown) or isinstance(y, Top):
                return None
            if isinstance(o, Obj) and o.cls in engine.classes and engine.class_lookup(st, o.cls, "__eq__"):
                return None
            if isinstance(y, (C, S, B, I, F, T, TN, Cls, EnumM, Fn, Mod, EI)):
                return False
            return None
        if isinstance(x, EI):
            if isinstance(y, C):
                if y.v is None:
                    return False
                if x.typ in ("http_sf.Token", "http_sf.DisplayString"):
                    if y.t == "str":
                        return None if not (ident) else False
                    return False
                if x.typ == "decimal.Decimal":
                    return None if y.t in ("int", "float", "bool") else False
                if x.typ in ("re.Match", "datetime.datetime", "datetime.timedelta"):
                    return False
                return None
            return None
        if isinstance(x, (Fn, BM, Cls, Partial, Mod, XM, EnumM, WR)) and isinstance(y, (C, S, B, I, F, T, TN)):
            return False
    r = e._may_equal(a, b_)
    if ident and r is True and isinstance(a, C) and a.t in ("str", "int", "float", "bytes"):
        return None
    return r


def like(a, others):
    """a, known to equal one of others: it holds no hazard that none of them can hold."""
    if isinstance(a, S) and a.taint & md.LABELS:
        may = frozenset()
        for b_ in others:
            if isinstance(b_, S):
                may |= b_.taint & md.LABELS
            elif not (isinstance(b_, C) and b_.t == "str"):
                return a
        if a.taint & md.LABELS - may:
            return a.but(taint=a.taint - (md.LABELS - may))
    return a


def refine_eq(a, b_):
    """Atom for a when a == b_."""
    a = like(a, (b_,))
    if isinstance(a, S) and isinstance(b_, C) and b_.t == "str":
        return b_ if not a.cls else a
    if isinstance(a, I) and isinstance(b_, C) and b_.t in ("int", "bool"):
        return C(int(b_.v))
    if isinstance(a, B) and isinstance(b_, C) and b_.t == "bytes":
        return b_
    if isinstance(a, J) and isinstance(b_, C):
        return b_
    return a


def refine_ne(a, b_):
    if isinstance(a, S) and isinstance(b_, C) and b_.v == "":
        return a.but(ml=max(1, a.ml or 0))
    if isinstance(a, B) and isinstance(b_, C) and b_.v == b"":
        return a.but(ml=max(1, a.ml or 0))
    if isinstance(a, I) and isinstance(b_, C):
        if a.lo is not None and a.lo == b_.v:
            return I(a.lo + 1, a.hi, a.lin, a.big)
        if a.hi is not None and a.hi == b_.v:
            return I(a.lo, a.hi - 1, a.lin, a.big)
    if isinstance(a, J) and isinstance(b_, C) and b_.v is None:
        return J(a.no | {"null"})
    return a


def equal(engine, left, right, st, l, r, node, ident):
    tl, tr, fl, fr = set(), set(), set(), set()
    for a in l:
        for b_ in r:
            q = eq_atoms(engine, st, a, b_, ident)
            if q is not False:
                tl.add(refine_eq(a, b_))
                tr.add(refine_eq(b_, a))
            if q is not True:
                fl.add(refine_ne(a, b_) if len(r) == 1 else a)
                fr.add(refine_ne(b_, a) if len(l) == 1 else b_)
    return split(engine, st, left, right, frozenset(tl), frozenset(tr), frozenset(fl), frozenset(fr), l, r)


NUM = ("int", "float", "bool", "decimal.Decimal")


def order(engine, left, op, right, st, l, r, node):
    e = _e()
    k = type(op)
    tl, tr, fl, fr = set(), set(), set(), set()
    for a in l:
        for b_ in r:
            na, nb = pyname(engine, st, a), pyname(engine, st, b_)
            if na and nb:
                ok = (na in NUM and nb in NUM) or na == nb
                if "decimal.Decimal" in (na, nb) and "float" in (na, nb):
                    ok = True
                if na == nb and na in ("NoneType", "dict"):
                    ok = False
                if {na, nb} <= {"http_sf.Token", "http_sf.DisplayString", "str"}:
                    ok = True
                if na in engine.classes or nb in engine.classes:
                    x = na if na in engine.classes else nb
                    has = any(engine.class_lookup(st, x, m) is not None
                              for m in ("__lt__", "__gt__", "__le__", "__ge__"))
                    ok = has or any(isinstance(z, Ext) and z.path not in e._PLAIN_BASES
                                    for z in engine.classes[x].mro)
                if not ok:
                    engine.raise_exc(st, "TypeError", node, f"ordering {e._desc(a, st)} and {e._desc(b_, st)}")
                    continue
            elif isinstance(a, J) or isinstance(b_, J):
                engine.raise_exc(st, "TypeError", node, f"ordering {e._desc(a, st)} and {e._desc(b_, st)}")
            if inty(a) and inty(b_):
                t, f = ord_int(k, a, b_)
                if t is not None:
                    tl.add(t[0])
                    tr.add(t[1])
                if f is not None:
                    fl.add(f[0])
                    fr.add(f[1])
                continue
            if isinstance(a, C) and isinstance(b_, C) and a is not UNBOUND and b_ is not UNBOUND:
                try:
                    v = {ast.Lt: a.v < b_.v, ast.Gt: a.v > b_.v, ast.LtE: a.v <= b_.v, ast.GtE: a.v >= b_.v}[k]
                except TypeError:
                    v = None
                if v is not None:
                    (tl if v else fl).add(a)
                    (tr if v else fr).add(b_)
                    continue
            tl.add(a)
            fl.add(a)
            tr.add(b_)
            fr.add(b_)
    return split(engine, st, left, right, frozenset(tl), frozenset(tr), frozenset(fl), frozenset(fr), l, r)


def ord_int(k, a, b_):
    """((a', b') when true or None, (a', b') when false or None)."""
    if k in (ast.Gt, ast.GtE):
        t, f = ord_int(ast.Lt if k is ast.Gt else ast.LtE, b_, a)
        return (t and (t[1], t[0])), (f and (f[1], f[0]))
    strict = k is ast.Lt
    al, ah = rng(a)
    bl, bh = rng(b_)
    d = 1 if strict else 0
    # true: a + d <= b
    t = f = None
    if not (al is not None and bh is not None and al + d > bh):
        t = (_upper(a, None if bh is None else bh - d), _lower(b_, None if al is None else al + d))
    # false: b <= a - (1-d)... not(a+d<=b)  <=> a+d >= b+1
    d2 = 0 if strict else 1
    if not (bl is not None and ah is not None and bl + d2 > ah):
        f = (_lower(a, None if bl is None else bl + d2), _upper(b_, None if ah is None else ah - d2))
    return t, f


def _upper(a, h):
    if isinstance(a, C) or h is None:
        return a
    if a.hi is None or a.hi > h:
        return I(a.lo, h, a.lin, a.big and (a.lo is None))
    return a


def _lower(a, lo):
    if isinstance(a, C) or lo is None:
        return a
    if a.lo is None or a.lo < lo:
        return I(lo, a.hi, a.lin, a.big)
    return a


# ---------------------------------------------------------------- membership
def exclude(a, keys):
    """Text that is known not to be any of these constants."""
    if isinstance(a, S) and not a.cls and a.ci is None and not a.other and (a.sym is None or a.sym[0] in ("ne", "in")):
        ks = frozenset(k.v for k in keys if isinstance(k, C) and k.t == "str")
        if ks and len(ks) <= 80:
            if a.sym and a.sym[0] == "ne":
                ks |= a.sym[1]
            return a.but(sym=("ne", ks))
    return a


def contains(engine, left, right, st, l, r, node):
    e = _e()
    tl, tr, fl, fr = set(), set(), set(), set()
    tkeys, fkeys = [], []
    outs_t, outs_f = [], []
    for b_ in r:
        elems = None  # known members
        exact = False
        o = seq_obj(st, b_)
        if isinstance(o, DictO):
            engine.check_hashable(st, l, node)
            for a in l:
                if isinstance(a, (R,)) and isinstance(st.get(a.addr), (ListO, DictO, SetO)):
                    continue
                t, f = dict_has(engine, st, o, a)
                if t:
                    if isinstance(a, S) and not a.other:
                        a = like(a, [x for x in list(o.ent) + list(o.okey or ()) if e._may_equal(a, x) is not False])
                    if isinstance(a, S) and o.okey and not (a.sym and a.sym[0] == "pad"):
                        tl.add(a.but(sym=("in", b_.addr)))
                    elif isinstance(a, S) and not o.okey and not a.cls:
                        for x in o.ent:
                            if e._may_equal(a, x) is not False:
                                tl.add(x)
                    else:
                        tl.add(a)
                    tr.add(b_)
                if f:
                    fl.add(exclude(a, o.ent) if not o.okey else a)
                    fr.add(b_)
            if len(l) == 1 and len(r) == 1 and not o.many:
                tkeys.append((b_.addr, next(iter(l))))
            continue
        if isinstance(o, (ListO, SetO)):
            elems = o.elem
            exact = o.exact is not None
            if isinstance(o, ListO) and exact:
                exact = all(len(x) == 1 for x in o.exact)
                if exact and len(o.exact) > 6:
                    elems = frozenset(next(iter(x)) for x in o.exact)  # not joined to intervals
            if isinstance(o, SetO):
                engine.check_hashable(st, l, node)
            empty = o.hi == 0
        elif isinstance(b_, T):
            elems = joinall(b_.elems)
            exact = all(len(x) == 1 for x in b_.elems)
            empty = not b_.elems
        elif isinstance(b_, TN):
            elems, exact, empty = b_.elem, False, False
        if elems is not None:
            for a in l:
                pt, pf = False, True
                hits = []
                for x in elems:
                    q = eq_atoms(engine, st, a, x, False)
                    if q is not False:
                        pt = True
                        hits.append(x)
                    if q is True and exact:
                        pf = False
                if empty:
                    pt = False
                if isinstance(o, ListO) and a.__class__ is C and a in o.certain():
                    pf = False
                if pt:
                    if isinstance(a, S) and not a.cls and all(isinstance(h, C) for h in hits):
                        tl.update(hits)
                    elif isinstance(a, B) and all(isinstance(h, C) for h in hits):
                        tl.update(hits)
                    elif isinstance(a, J) and all(isinstance(h, C) for h in hits):
                        tl.update(hits)
                    else:
                        tl.add(like(a, hits))
                    tr.add(b_)
                if pf:
                    fl.add(exclude(a, elems) if exact else a)
                    fr.add(b_)
            continue
        if stringy(b_):
            for a in l:
                if isinstance(a, (Top,)) or a is UNBOUND:
                    tl.add(a); fl.add(a); tr.add(b_); fr.add(b_)
                elif stringy(a):
                    if isinstance(a, C) and isinstance(b_, C):
                        v = a.v in b_.v
                        (tl if v else fl).add(a)
                        (tr if v else fr).add(b_)
                        continue
                    tl.add(a)
                    if isinstance(a, C) and isinstance(b_, S):
                        sure = any(a.v in h for h in b_.has) or a.v == ""
                        tr.add(b_.but(has=frozenset(list(b_.has | {a.v})[:10]), ml=max(b_.ml or 0, len(a.v))))
                        if not sure:
                            fl.add(a)
                            fr.add(b_)
                    else:
                        tr.add(b_)
                        fl.add(a)
                        fr.add(b_)
                elif isinstance(a, EI) and a.typ in ("http_sf.Token", "http_sf.DisplayString"):
                    tl.add(a); fl.add(a); tr.add(b_); fr.add(b_)
                elif known(a, st) or isinstance(a, (J, EI)):
                    engine.raise_exc(st, "TypeError", node, f"{e._desc(a, st)} in str")
                    if isinstance(a, J):
                        tl.add(a); fl.add(a); tr.add(b_); fr.add(b_)
                else:
                    tl.add(a); fl.add(a); tr.add(b_); fr.add(b_)
            continue
        if bytesy(b_):
            for a in l:
                if stringy(a) or (isinstance(a, C) and a.v is None):
                    engine.raise_exc(st, "TypeError", node, f"{e._desc(a, st)} in bytes")
                    continue
                tl.add(a); fl.add(a); tr.add(b_); fr.add(b_)
            continue
        if isinstance(o, Obj) and o.cls in engine.classes:
            f = engine.class_lookup(st, o.cls, "__contains__") or None
            if f is not None:
                res = engine.call(st.fork(), V(*[BM(R(b_.addr), x) for x in f]), [l], {}, node)
                for s2, v in res:
                    _, _, t, ff = engine.truth(s2, v, node)
                    if t is not None:
                        outs_t.append(t)
                    if ff is not None:
                        outs_f.append(ff)
                continue
        if (isinstance(b_, (C, I, F, Fn, BM, EnumM)) and b_ is not UNBOUND):
            engine.raise_exc(st, "TypeError", node, f"in {e._desc(b_, st)}")
            continue
        if isinstance(b_, J):
            engine.raise_exc(st, "TypeError", node, "in arbitrary JSON value")
        if isinstance(b_, Cls) and engine.classes[b_.qual].enum:
            pass
        tl |= l
        fl |= l
        tr.add(b_)
        fr.add(b_)
    apart = table_keys(engine, st, left, l, r, tl)
    whole = st.fork() if apart else None
    ts, fs = split(engine, st, left, right, frozenset(tl), frozenset(tr), frozenset(fl), frozenset(fr), l, r)
    if apart:  # one state for each row of a table of tables
        ts = [x for a in apart for x in split(engine, whole.fork(), left, right, V(a), frozenset(tr), V(), V(), l, r)[0]]
    if len(l) == 1 and len(r) == 1 and e.const_key(next(iter(l))):
        (b_,) = r
        if isinstance(b_, R):
            for s in ts:
                engine.narrow_keys(s, b_.addr, next(iter(l)))
    for addr, ka in tkeys:
        if not e.const_key(ka):
            continue
        for s in ts:
            o = s.get(addr)
            if isinstance(o, DictO) and ka in o.ent and o.ent[ka][1] and not _isbase(engine, s, addr):
                ent = dict(o.ent)
                ent[ka] = (ent[ka][0], False)
                s.put(addr, o.but(ent=ent))
            elif isinstance(o, DictO) and ka not in o.ent and o.okey and not _isbase(engine, s, addr):
                ent = dict(o.ent)
                ent[ka] = (o.oval, False)
                s.put(addr, o.but(ent=ent))
        for s in fs:
            o = s.get(addr)
            if isinstance(o, DictO) and ka in o.ent and o.ent[ka][1] and not _isbase(engine, s, addr):
                ent = dict(o.ent)
                ent.pop(ka)
                s.put(addr, o.but(ent=ent))
    return ts + outs_t, fs + outs_f


def table_keys(engine, st, left, l, r, tl):
    """The rows to tell apart when a key is looked for in a constant table of tables."""
    if not (isinstance(left, ast.Name) and len(l) == 1 and len(r) == 1 and 2 <= len(tl) <= 12):
        return ()
    (b_,) = r
    o = seq_obj(st, b_)
    if not (isinstance(o, DictO) and not o.okey and _isbase(engine, st, b_.addr)):
        return ()
    if not all(isinstance(a, C) for a in tl) or next(iter(l)) in tl:
        return ()
    for v, _ in o.ent.values():
        if len(v) != 1 or not isinstance(st.get(getattr(next(iter(v)), "addr", None)), DictO):
            return ()
    return sorted(tl, key=repr)


def _isbase(engine, s, addr):
    return engine.base is not None and addr in engine.base and addr not in s.heap


def dict_has(engine, st, o, a):
    e = _e()
    if isinstance(a, (Top, J)) or a is UNBOUND:
        return True, True
    if e.const_key(a):
        if a in o.ent:
            return True, o.ent[a][1]
        if o.okey and any(e._may_equal(x, a) is not False for x in o.okey):
            return True, True
        return False, True
    if isinstance(a, S):
        if a.sym and a.sym[0] == "in" and o is st.get(a.sym[1]):
            return True, False
        if a.other:
            return bool(o.okey), True
    t = bool(o.okey) or any(e._may_equal(a, x) is not False for x in o.ent)
    return t, True


# ---------------------------------------------------------------- len(x) <op> n
def cond_len(engine, left, op, right, st, node):
    k = type(op)
    if k in FLIP and isinstance(right, ast.Call) and not isinstance(left, ast.Call):
        left, right, k = right, left, FLIP[k]
    elif isinstance(right, ast.Call) and not isinstance(left, ast.Call) and k in (ast.Eq, ast.NotEq):
        left, right = right, left
    if not (isinstance(left, ast.Call) and isinstance(left.func, ast.Name) and left.func.id == "len"
            and len(left.args) == 1 and not left.keywords and isinstance(right, ast.Constant)
            and isinstance(right.value, int)):
        return None
    if k not in (ast.Eq, ast.NotEq, ast.Lt, ast.LtE, ast.Gt, ast.GtE):
        return None
    if engine.lookup("len", st) != V(Ext("builtins.len")):
        return None
    n = right.value
    # allowed ranges when true: list of (lo, hi)
    INF = None
    tr, fr = {
        ast.Eq: ([(n, n)], [(0, n - 1), (n + 1, INF)]),
        ast.NotEq: ([(0, n - 1), (n + 1, INF)], [(n, n)]),
        ast.Lt: ([(0, n - 1)], [(n, INF)]),
        ast.LtE: ([(0, n)], [(n + 1, INF)]),
        ast.Gt: ([(n + 1, INF)], [(0, n)]),
        ast.GtE: ([(n, INF)], [(0, n - 1)]),
    }[k]
    ts, fs = [], []
    for s, v in engine.ev(left.args[0], st):
        for a in v:
            ts.extend(_len_refine(engine, s, left.args[0], a, v, tr, node))
            fs.extend(_len_refine(engine, s, left.args[0], a, v, fr, node))
        # errors
        from .m_ext import b_len

        bad = frozenset(a for a in v if not _sized(engine, s, a))
        if bad:
            b_len(engine, s, [bad], {}, node)
    return ts, fs


def _sized(engine, st, a):
    if isinstance(a, (S, B, T, TN, Top)) or (isinstance(a, C) and a.t in ("str", "bytes")):
        return True
    if isinstance(a, (R, W)):
        return True
    return False


def _len_refine(engine, st, path, a, v, ranges, node):
    out = []
    e = _e()
    ispath = e._is_path(path)
    for lo, hi in ranges:
        if hi is not None and hi < lo:
            continue
        s = None
        if isinstance(a, (R, W)):
            o = st.get(a.addr)
            if isinstance(o, (ListO, SetO)):
                nlo = max(lo, o.lo)
                nhi = hi if o.hi is None else (o.hi if hi is None else min(hi, o.hi))
                if nhi is not None and nlo > nhi:
                    continue
                s = st.fork()
                if o.exact is None and not o.many and (nlo, nhi) != (o.lo, o.hi) and not _isbase(engine, st, a.addr):
                    if isinstance(o, ListO):
                        sure = True if lo > o.lo else o.sure
                        if nhi == nlo and nlo <= 6:
                            s.put(a.addr, ListO([o.elem] * nlo, unord=o.unord if nlo > 1 else None))
                        else:
                            s.put(a.addr, ListO(None, o.elem, nlo, nhi, o.unord, False, sure, o.has))
                    else:
                        s.put(a.addr, SetO(None, o.elem, nlo, nhi, False, o.sure))
            elif isinstance(o, DictO):
                dl, dh = o.lo(), o.hi()
                if hi is not None and dl > hi or dh is not None and dh < lo:
                    continue
                s = st.fork()
            else:
                s = st.fork()
            if ispath and len(v) > 1:
                engine.path_set(s, path, V(a))
        elif isinstance(a, S):
            m = a.ml or 0
            if hi is not None and m > hi:
                continue
            if a.mx is not None and a.mx < lo:
                continue
            s = st.fork()
            if ispath:
                if hi == 0 and not a.cls:
                    na = C("")
                else:
                    na = a.but(ml=max(m, lo) if (lo > m) else a.ml,
                               mx=hi if a.mx is None else (a.mx if hi is None else min(hi, a.mx)))
                engine.path_set(s, path, V(na))
        elif isinstance(a, B):
            m = a.ml or 0
            if hi is not None and m > hi:
                continue
            s = st.fork()
            if ispath:
                engine.path_set(s, path, V(C(b"") if hi == 0 else a.but(ml=max(m, lo) if lo > m else a.ml)))
        elif isinstance(a, C) and isinstance(a.v, (str, bytes)) or isinstance(a, T):
            n = len(a.v) if isinstance(a, C) else len(a.elems)
            if n < lo or hi is not None and n > hi:
                continue
            s = st.fork()
            if ispath and len(v) > 1:
                engine.path_set(s, path, V(a))
        elif isinstance(a, (TN, Top)):
            s = st.fork()
        else:
            continue
        out.append(s)
    return out


# ---------------------------------------------------------------- predicates
TYPES = {
    "builtins.str": "str", "builtins.int": "int", "builtins.float": "float", "builtins.bool": "bool",
    "builtins.bytes": "bytes", "builtins.list": "list", "builtins.dict": "dict", "builtins.set": "set",
    "builtins.tuple": "tuple", "typing.Mapping": "dict", "collections.abc.Mapping": "dict",
    "collections.abc.Sequence": "list", "typing.Sequence": "list", "builtins.NoneType": "NoneType",
    "types.NoneType": "NoneType", "builtins.object": "object",
}


def type_list(engine, v):
    """Flatten an isinstance() second argument into type atoms; None when unknown."""
    out = []
    for a in v:
        if isinstance(a, T):
            for e in a.elems:
                x = type_list(engine, e)
                if x is None:
                    return None
                out.extend(x)
        elif isinstance(a, (Cls, Ext)):
            out.append(a)
        elif isinstance(a, GA):
            out.append(a.origin)
        elif isinstance(a, C) and a.v is None:
            out.append(Ext("builtins.NoneType"))
        else:
            return None
    return out


def inst1(engine, st, a, t):
    """isinstance(a, t) : True / False / None (unknown)."""
    if isinstance(a, Top) or a is UNBOUND:
        return None
    n = pyname(engine, st, a)
    if isinstance(t, Ext):
        want = TYPES.get(t.path)
        if want == "object":
            return True
        if isinstance(a, J):
            return None
        if isinstance(a, EnumM):
            return False
        if n is None:
            if isinstance(a, (Fn, BM, Cls, Mod)) and want:
                return False
            return None
        if n in engine.classes:
            mro = engine.classes[n].mro
            if t in mro:
                return True
            if isinstance(a, S) and a.cls:
                return want == "str"
            return False if not any(isinstance(x, Ext) and x.path not in _e()._PLAIN_BASES for x in mro) else None
        if isinstance(a, S) and a.cls:
            return want == "str"
        if want is None:
            # library class
            short = t.path
            if n == short or n.replace("http_sf.util.", "http_sf.") == short:
                return True
            if isinstance(a, EI) and n == "exc":
                return engine.exc_is(exc_class(a.payload), _e()._strip_b(t.path))
            if short == "numbers.Number":
                return n in ("int", "float", "bool", "decimal.Decimal")
            if short in ("collections.UserString",):
                return n in ("http_sf.Token", "http_sf.DisplayString")
            if short.startswith(("decimal.", "http_sf.", "datetime.", "re.")) and n in (
                    "int", "str", "float", "bool", "bytes", "NoneType", "list", "dict", "tuple", "set",
                    "http_sf.Token", "http_sf.DisplayString", "decimal.Decimal", "datetime.datetime", "re.Match"):
                return False
            if short in ("typing.Iterable", "collections.abc.Iterable"):
                return n in ("list", "dict", "set", "tuple", "str", "bytes")
            return None if n not in ("int", "str", "float", "bool", "NoneType") else False
        if want == n:
            return True
        if want == "int" and n == "bool":
            return True
        return False
    # program class
    if isinstance(a, J):
        return False
    if n in engine.classes:
        return t in engine.classes[n].mro
    if isinstance(a, S):
        return a.cls is not None and t in engine.classes[a.cls].mro
    if n is not None:
        return False
    if isinstance(a, (Fn, BM, Cls, Mod)):
        return False
    return None


def inst_cases(engine, st, a, types, node):
    """(atoms if true, atoms if false)."""
    if isinstance(a, J):
        t, f = set(), set()
        kinds = set()
        for ty in types:
            want = TYPES.get(ty.path) if isinstance(ty, Ext) else None
            if want == "NoneType":
                kinds.add("null")
            elif want == "object":
                kinds |= JKINDS
            elif want in JKINDS:
                kinds.add(want)
                if want == "int":
                    kinds.add("bool")
        for k in sorted(kinds - a.no):
            t |= j_kind(engine, st, k, node)
        rest = a.no | kinds
        if rest != JKINDS:
            f.add(J(frozenset(rest)))
        return t, f
    rs = [inst1(engine, st, a, t) for t in types]
    if True in rs:
        return {a}, set()
    if None in rs:
        return {a}, {a}
    return set(), {a}


def cond_call(engine, node, st):
    e = _e()
    f = node.func
    if isinstance(f, ast.Name) and f.id in ("isinstance", "hasattr", "callable", "all", "any", "bool"):
        if engine.lookup(f.id, st) != V(Ext("builtins." + f.id)):
            return None
        if f.id == "bool" and len(node.args) == 1 and not node.keywords:
            return engine.cond(node.args[0], st)
        if f.id == "isinstance" and len(node.args) == 2:
            ts, fs = [], []
            for s, v in engine.ev(node.args[0], st):
                for s2, tv in engine.ev(node.args[1], s):
                    types = type_list(engine, tv)
                    if types is None:
                        ts.append(s2.fork())
                        fs.append(s2)
                        continue
                    s_t = s2.fork()
                    t, fl = set(), set()
                    for a in v:
                        x, y = inst_cases(engine, s_t, a, types, node)
                        t |= x
                        fl |= y
                    path = e._is_path(node.args[0])
                    if t:
                        if path and frozenset(t) != v:
                            engine.path_set(s_t, node.args[0], norm(frozenset(t)))
                        ts.append(s_t)
                    if fl:
                        if path and frozenset(fl) != v:
                            engine.path_set(s2, node.args[0], norm(frozenset(fl)))
                        fs.append(s2)
            return ts, fs
        if f.id == "hasattr" and len(node.args) == 2:
            ts, fs = [], []
            for s, v in engine.ev(node.args[0], st):
                for s2, nv in engine.ev(node.args[1], s):
                    t, fl = set(), set()
                    names = [a.v for a in nv if isinstance(a, C) and isinstance(a.v, str)]
                    for a in v:
                        if len(names) != len(nv):
                            t.add(a)
                            fl.add(a)
                            continue
                        for n in names:
                            h = has_attr(engine, s2, a, n)
                            if h is not False:
                                t.add(a)
                            if h is not True:
                                fl.add(a)
                    path = e._is_path(node.args[0])
                    if t and fl:
                        st_t = s2.fork()
                    else:
                        st_t = s2
                    if t:
                        if path and frozenset(t) != v:
                            engine.path_set(st_t, node.args[0], norm(frozenset(t)))
                        if len(t) == 1 and len(names) == 1:
                            (a,) = t
                            o = st_t.get(a.addr) if isinstance(a, (R, W)) else None
                            if isinstance(o, (Obj,)) and names[0] in o.attrs and o.attrs[names[0]][1] and not o.many:
                                st_t.put(a.addr, o.set(names[0], o.attrs[names[0]][0]))
                        ts.append(st_t)
                    if fl:
                        if path and frozenset(fl) != v:
                            engine.path_set(s2, node.args[0], norm(frozenset(fl)))
                        fs.append(s2)
            return ts, fs
        if f.id == "callable":
            return None
        return None
    # s.startswith("x") / s.endswith("x")
    if isinstance(f, ast.Attribute) and f.attr in ("startswith", "endswith") and len(node.args) == 1 and not node.keywords:
        ts, fs = [], []
        for s, v in engine.ev(f.value, st):
            if not all(stringy(a) for a in v):
                return None
            for s2, p in engine.ev(node.args[0], s):
                if not all(isinstance(a, C) and a.t == "str" for a in p):
                    return None
                t, fl = set(), set()
                for a in v:
                    for q in p:
                        if isinstance(a, C):
                            hit = getattr(a.v, f.attr)(q.v)
                            (t if hit else fl).add(a)
                        elif a.ci is not None:
                            hit = getattr(a.ci.lower(), f.attr)(q.v.lower())
                            if hit:
                                t.add(a)
                            if not hit or q.v.lower() != q.v.upper():
                                fl.add(a)
                        else:
                            if a.mx is None or a.mx >= len(q.v):
                                t.add(a.but(has=frozenset(list(a.has | {q.v})[:10]), ml=max(a.ml or 0, len(q.v)))
                                      if q.v else a)
                            if q.v:
                                fl.add(a)
                path = e._is_path(f.value)
                if t and fl:
                    s_t = s2.fork()
                else:
                    s_t = s2
                if t:
                    if path and frozenset(t) != v:
                        engine.path_set(s_t, f.value, norm(frozenset(t)))
                    ts.append(s_t)
                if fl:
                    if path and frozenset(fl) != v:
                        engine.path_set(s2, f.value, norm(frozenset(fl)))
                    fs.append(s2)
        return ts, fs
    return None


def has_attr(engine, st, a, n):
    if isinstance(a, (R, W)):
        o = st.get(a.addr)
        if isinstance(o, Obj):
            if n in o.attrs:
                return None if o.attrs[n][1] else True
            if o.cls in engine.classes:
                if engine.class_lookup(st, o.cls, n) is not None:
                    return True
                if engine.class_lookup(st, o.cls, "__getattr__") is not None:
                    return None
                if any(isinstance(x, Ext) and x.path not in _e()._PLAIN_BASES for x in engine.classes[o.cls].mro):
                    return None
                return False
            return None
        if isinstance(o, ExtO):
            return True if n in o.attrs else None
        return None
    if isinstance(a, C) and a is not UNBOUND:
        return hasattr(a.v, n)
    if isinstance(a, S):
        return hasattr(str, n) if not a.cls else None
    if isinstance(a, Cls):
        return True if engine.class_lookup(st, a.qual, n) is not None else (
            bool(engine.orig_bases_of(engine.classes[a.qual])) if n == "__orig_bases__" else None)
    if isinstance(a, Mod):
        o = st.get(("mod", a.name))
        return bool(o and n in o.attrs)
    return None
