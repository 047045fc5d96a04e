"""Library modules: re, urllib, json, http_sf, datetime, hashing, codecs, translations, ..."""

from __future__ import annotations

import calendar
import codecs
import datetime
import email.utils
import os
import re as _re
import zlib

try:
    from re import _parser as sre_parse, _constants as sre_c
except ImportError:  # pragma: no cover
    import sre_parse
    import sre_constants as sre_c

from .atoms import *
from .m_core import *
from . import md, rx
from .m_ops import seq_obj
from .state import DictO, ExtO, ListO, Obj, SetO, UNBOUND, Unknown, join_states


def _e():
    from . import engine

    return engine


# ---------------------------------------------------------------- re
_sre_cache = {}


def sre(pattern, flags):
    k = (pattern, flags)
    if k not in _sre_cache:
        try:
            p = sre_parse.parse(pattern, flags)
            _sre_cache[k] = p
        except Exception as why:  # re.error, OverflowError, RecursionError
            _sre_cache[k] = why
    return _sre_cache[k]


def optional_groups(p):
    """Group numbers that may be unset after a match."""
    opt = set()
    allg = set()

    def walk(sub, may):
        for op, av in sub:
            n = str(op)
            if n == "SUBPATTERN":
                g, _, _, x = av
                if g is not None:
                    allg.add(g)
                    if may:
                        opt.add(g)
                walk(x, may)
            elif n in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                lo, hi, x = av
                walk(x, may or lo == 0)
            elif n == "BRANCH":
                _, brs = av
                for x in brs:
                    walk(x, True if len(brs) > 1 else may)
            elif n in ("ASSERT",):
                walk(av[1], may)
            elif n == "ASSERT_NOT":
                walk(av[1], True)
            elif n == "ATOMIC_GROUP":
                walk(av, may)
            elif n == "GROUPREF_EXISTS":
                _, a, b_ = av
                walk(a, True)
                if b_:
                    walk(b_, True)

    walk(p, False)
    return opt, allg


def group_pattern(p, g):
    found = []

    def walk(sub):
        for op, av in sub:
            n = str(op)
            if n == "SUBPATTERN":
                if av[0] == g:
                    found.append(av[3])
                walk(av[3])
            elif n in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
                walk(av[2])
            elif n == "BRANCH":
                for x in av[1]:
                    walk(x)
            elif n == "ASSERT" or n == "ASSERT_NOT":
                walk(av[1])
            elif n == "ATOMIC_GROUP":
                walk(av)

    walk(p)
    return found[0] if found else None


def only_digits(sub):
    """Every character matched is a decimal digit."""
    for op, av in sub:
        n = str(op)
        if n == "LITERAL":
            if not (48 <= av <= 57):
                return False
        elif n == "IN":
            for o2, a2 in av:
                m = str(o2)
                if m == "LITERAL":
                    if not (48 <= a2 <= 57):
                        return False
                elif m == "RANGE":
                    if not (48 <= a2[0] and a2[1] <= 57):
                        return False
                elif m == "CATEGORY":
                    if str(a2) not in ("CATEGORY_DIGIT", "CATEGORY_UNI_DIGIT"):
                        return False
                else:
                    return False
        elif n in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            if not only_digits(av[2]):
                return False
        elif n == "SUBPATTERN":
            if not only_digits(av[3]):
                return False
        elif n == "BRANCH":
            if not all(only_digits(x) for x in av[1]):
                return False
        elif n == "CATEGORY":
            if str(av) not in ("CATEGORY_DIGIT", "CATEGORY_UNI_DIGIT"):
                return False
        elif n in ("AT", "ASSERT", "ASSERT_NOT"):
            continue
        else:
            return False
    return True


def sub_lang(sub, pat=None, fl=0, g=0):
    lo, hi = sub.getwidth()
    big = hi > 100000
    if only_digits(sub):
        return int(lo), ("digits", None if big else int(hi)), (None if big else int(hi))
    return int(lo), (("re", pat, fl, g, False) if pat is not None else None), (None if big else int(hi))


_dfas = {}


def lang_dfa(lang):
    """The automaton of a text's language, or None when it is too large to build."""
    k = lang[1:4]
    if k not in _dfas:
        try:
            p = sre(k[0], k[1])
            sub = p if k[2] == 0 else group_pattern(p, k[2])
            _dfas[k] = rx.determinize(rx.build(sub, p.state.flags), "full", 3000)
        except (rx.TooBig, rx.Unsupported):
            _dfas[k] = None
    return _dfas[k]


_has = {}


def lang_may_hold(lang, ch):
    """Can a text of this language hold the character?"""
    k = lang[1:4] + (ch,)
    if k not in _has:
        d = lang_dfa(lang)
        r = True
        if d is not None:
            dist = rx.live(d)
            seen, todo = {d.start}, [d.start]
            m = rx.lit(ord(ch))
            r = False
            for q in todo:
                for ci, c in enumerate(d.classes):
                    x = d.trans[q][ci]
                    if x in dist:
                        if c & m:
                            r = True
                        if x not in seen:
                            seen.add(x)
                            todo.append(x)
        _has[k] = r
    return _has[k]


def lang_taint(lang, t):
    """Taint of a text of this language cut from one with taint t."""
    if lang is not None and t & md.LABELS:
        t = md.limited(t, lambda ch: lang[0] != "digits" and lang_may_hold(lang, ch))
    if "nul" in t and lang is not None and (lang[0] == "digits" or not lang_may_hold(lang, "\0")):
        return frozenset(t) - {"nul"}
    return t


_splits = {}


def lang_split(lang, sep):
    """rx.split_mins for a text of this language; None when unknown."""
    k = (lang, sep)
    if k not in _splits:
        d = lang_dfa(lang)
        _splits[k] = None if d is None else rx.split_mins(d, sep, lang[4])
    return _splits[k]


def flags_of(v):
    if v is None:
        return 0
    ok, x = const1(v)
    if ok and isinstance(x, int):
        return int(x)
    return None


RE_FUNCS = ("match", "search", "fullmatch", "findall", "finditer", "sub", "subn", "split", "compile")


def use_regex(engine, st, how, pv, fv, subject, node):
    """Record the use and yield (atom, parsed pattern or None)."""
    fl = flags_of(fv)
    out = []
    for a in pv:
        if isinstance(a, C) and isinstance(a.v, str):
            key = (a.v, fl or 0, how)
            wire = "wire" in engine.taint(st, subject) or "user" in engine.taint(st, subject) if subject is not None else None
            engine.regex_uses.setdefault(key, set()).add((engine.qual(), bool(wire)))
            p = sre(a.v, fl or 0)
            if isinstance(p, Exception):
                engine.raise_exc(st, "re.error", node, "invalid regular expression")
                continue
            out.append((a, p))
        elif isinstance(a, S):
            if a.taint:
                engine.raise_exc(st, "re.error", node, "regular expression built from message text")
            out.append((a, None))
        elif isinstance(a, EI) and a.typ == "re.Pattern":
            out.extend(use_regex(engine, st, how, V(C(a.payload[0])) if a.payload[0] is not None else V(S()),
                                 Cv(a.payload[1]), subject, node))
        else:
            out.append((a, None))
    return out


def subject_ok(engine, st, v, node, how):
    out = set()
    for a in v:
        if isinstance(a, C) and a.t not in ("str", "bytes") and a is not UNBOUND or isinstance(a, (I, F, T, TN)):
            engine.raise_exc(st, "TypeError", node, f"re.{how} of {_e()._desc(a, st)}")
        elif isinstance(a, EI) and a.typ in ("http_sf.Token", "http_sf.DisplayString", "decimal.Decimal", "datetime.datetime"):
            engine.raise_exc(st, "TypeError", node, f"re.{how} of {a.typ}")
        elif isinstance(a, J):
            engine.raise_exc(st, "TypeError", node, f"re.{how} of arbitrary JSON value")
            out.add(S(taint=JSONT))
        elif isinstance(a, (R, W)) and isinstance(st.get(a.addr), (ListO, DictO, SetO)):
            engine.raise_exc(st, "TypeError", node, f"re.{how} of {_e()._desc(a, st)}")
        else:
            out.add(a)
    return frozenset(out)


_case_memo = {}


def case_match(pattern, flags, how, name):
    """Does the pattern match this name in every mix of case (True), in none (False), or in some (None)?"""
    k = (pattern, flags, how, name)
    if k in _case_memo:
        return _case_memo[k]
    try:
        p = sre(pattern, flags)
        n = rx.build(p, p.state.flags)
        if n.approx or not name.isascii():
            raise rx.Unsupported("look-around")
        d = rx.determinize(n, {"fullmatch": "full"}.get(how, how), 3000)
        cur = {d.start}
        for c in name:
            cur = {d.trans[q][i] for q in cur for i, m in enumerate(d.classes)
                   for x in {c.lower(), c.upper()} if m & rx.lit(ord(x))}
        acc = {bool(d.acc[q]) for q in cur}
        r = acc.pop() if len(acc) == 1 else None
    except (rx.TooBig, rx.Unsupported):
        r = None
    _case_memo[k] = r
    return r


def re_call(engine, st, how, pv, subject, fv, args, node, snode):
    if how == "compile":
        out = []
        for a, p in use_regex(engine, st, how, pv, fv, None, node):
            if isinstance(a, C):
                out.append(EI("re.Pattern", (a.v, flags_of(fv) or 0)))
            else:
                out.append(EI("re.Pattern", (None, 0)))
        return [(st, frozenset(out))] if out else []
    subject = subject_ok(engine, st, subject, node, how)
    if not subject:
        return []
    ps = use_regex(engine, st, how, pv, fv, subject, node)
    if not ps:
        return []
    t = engine.taint(st, subject)
    if how in ("match", "search", "fullmatch"):
        none_st = st.fork()
        ats = set()
        mlo = None
        certain = False
        for a, p in ps:
            if p is not None:
                w = int(p.getwidth()[0])
                mlo = w if mlo is None else min(mlo, w)
                ats.add(EI("re.Match", (a.v, flags_of(fv) or 0, tuple(sorted(t)))))
            else:
                mlo = 0
                ats.add(EI("re.Match", (None, 0, tuple(sorted(t)))))
        if snode is not None and _e()._is_path(snode) and len(ps) == 1 and mlo:
            new = set()
            for x in subject:
                if isinstance(x, S) and (x.ml is None or x.ml < mlo):
                    x = x.but(ml=mlo)
                elif isinstance(x, C) and isinstance(x.v, str) and len(x.v) < mlo:
                    continue
                new.add(x)
            if not new:
                return [(none_st, VNONE)]
            engine.path_set(st, snode, norm(frozenset(new)))
        # a constant subject and pattern decide the match
        if len(ps) == 1 and len(subject) == 1:
            (x,) = subject
            a, p = ps[0]
            if isinstance(x, S) and x.ci is not None and p is not None:
                d = case_match(a.v, flags_of(fv) or 0, how, x.ci)
                if d is True:
                    return [(st, frozenset(ats))]
                if d is False:
                    return [(none_st, VNONE)]
            if isinstance(x, C) and isinstance(x.v, str) and p is not None:
                try:
                    m = getattr(_re.compile(a.v, flags_of(fv) or 0), how)(x.v)
                except Exception:
                    m = 0
                if m is None:
                    return [(none_st, VNONE)]
                if m:
                    if len(x.v) <= 400:
                        return [(st, V(EI("re.Match", (a.v, flags_of(fv) or 0, tuple(sorted(t)), (how, x.v)))))]
                    return [(st, frozenset(ats))]
        return [(none_st, VNONE), (st, frozenset(ats))]
    r = folded_call(engine, st, how, ps, subject, fv, args, node)
    if r is not None:
        return r
    if how in ("findall", "finditer"):
        el = set()
        for a, p in ps:
            if how == "finditer":
                el.add(EI("re.Match", (a.v if p is not None else None, flags_of(fv) or 0, tuple(sorted(t)))))
                continue
            if p is None:
                el.add(TOP)
                continue
            ng = p.state.groups - 1
            if ng <= 1:
                sub = p if ng == 0 else group_pattern(p, 1)
                lo, lang, hi = sub_lang(sub, a.v, flags_of(fv) or 0, ng) if sub is not None else (0, None, None)
                if ng == 1 and 1 in optional_groups(p)[0]:
                    lo, lang = 0, None
                el.add(S(ml=lo, taint=lang_taint(lang, t), lang=lang, mx=hi))
            else:
                opt, _ = optional_groups(p)
                cols = []
                for g in range(1, ng + 1):
                    sub = group_pattern(p, g)
                    lo, lang, hi = sub_lang(sub, a.v, flags_of(fv) or 0, g) if sub is not None else (0, None, None)
                    if g in opt:
                        lo, lang = 0, None
                    cols.append(V(S(ml=lo, taint=lang_taint(lang, t), lang=lang, mx=hi)))
                el.add(T(cols))
        return [(st, V(engine.new_list(st, node, None, frozenset(el), 0, None)))]
    if how in ("sub", "subn"):
        repl = args[0] if args else VTOP
        out = []
        tt = t | engine.taint(st, repl)
        for r in repl:
            if isinstance(r, (Fn, BM, Partial)):
                m = EI("re.Match", (ps[0][0].v if ps[0][1] is not None else None, flags_of(fv) or 0, tuple(sorted(t))))
                for s2, v in engine.call(st.fork(), V(r), [V(m)], {}, node):
                    tt = tt | engine.taint(s2, v)
        if tt & md.LABELS:
            tt = sub_labels(ps, repl, t, tt)
        res = V(S(ml=None if all(not (isinstance(x, S) and x.ml == 0) for x in subject) else 0, taint=tt))
        if how == "subn":
            res = V(T([res, V(I(0, None))]))
        return [(st, res)]
    if how == "split":
        el = V(S(ml=0, taint=md.cut(t)))
        for a, p in ps:
            if p is not None and p.state.groups > 1:
                el = el | VNONE
        return [(st, V(engine.new_list(st, node, None, el, 1, None)))]
    return [(st, VTOP)]


def folded_call(engine, st, how, ps, subject, fv, args, node):
    """A constant pattern applied to a constant text gives constants."""
    if how not in ("findall", "split", "sub") or len(ps) != 1 or len(subject) != 1 or ps[0][1] is None:
        return None
    (x,) = subject
    if not (isinstance(x, C) and isinstance(x.v, str) and len(x.v) <= 400):
        return None
    try:
        c = _re.compile(ps[0][0].v, flags_of(fv) or 0)
        if how == "sub":
            (r,) = args[0]
            if not (isinstance(r, C) and isinstance(r.v, str)):
                return None
            return [(st, V(C(c.sub(r.v, x.v))))]
        out = c.findall(x.v) if how == "findall" else c.split(x.v)
    except Exception:
        return None
    if len(out) > 12:
        return None
    items = [V(T([V(C(y)) for y in z])) if isinstance(z, tuple) else V(C(z)) for z in out]
    return [(st, V(engine.alloc(st, node, ListO(items), "re")))]


def folded_match(m):
    """The match itself, when pattern and text are constants."""
    if len(m.payload) < 4:
        return None
    how, text = m.payload[3]
    return getattr(_re.compile(m.payload[0], m.payload[1]), how)(text)


def sub_labels(ps, repl, t, tt):
    """Markdown labels after re.sub: the characters every match of which is replaced are gone."""
    if not all(isinstance(r, C) and isinstance(r.v, str) for r in repl):
        return md.cut(tt)
    out = md.cut(t)
    new = "".join(r.v for r in repl)
    for ch, lab in (("`", "bt"), ("<", "lt"), ("\n", "nl"), ("\r", "cr")):
        if ch in new:
            if lab != "lt":
                out = out | {lab}
            continue
        if ps and all(p is not None and _eats(p, ch) for _, p in ps):
            out = md.replaced(out, ch, "")
    return out


def _eats(p, ch):
    """Does the pattern match every single occurrence of ch (it's a character class, perhaps repeated)?"""
    items = list(p)
    if len(items) != 1:
        return False
    op, av = items[0]
    if str(op) in ("MAX_REPEAT", "POSSESSIVE_REPEAT") and av[0] == 1:
        inner = list(av[2])
        if len(inner) != 1:
            return False
        op, av = inner[0]
    if str(op) == "LITERAL":
        return av == ord(ch)
    if str(op) == "BRANCH":
        return any(len(x) == 1 and str(x[0][0]) == "LITERAL" and x[0][1] == ord(ch) for x in av[1])
    if str(op) != "IN":
        return False
    neg = any(str(o) == "NEGATE" for o, _ in av)
    hit = False
    for o, v in av:
        o = str(o)
        if o == "LITERAL":
            hit = hit or v == ord(ch)
        elif o == "RANGE":
            hit = hit or v[0] <= ord(ch) <= v[1]
        elif o == "CATEGORY":
            if str(v).endswith("CATEGORY_SPACE"):
                hit = hit or ch in "\n\r"
            elif str(v).endswith("NOT_WORD"):
                hit = hit or True
            elif neg:
                return False
    return hit != neg


def _mk_re(how):
    def f(engine, st, args, kwargs, node):
        pv = arg(args, kwargs, 0, "pattern", VTOP)
        if how == "compile":
            return re_call(engine, st, how, pv, None, arg(args, kwargs, 1, "flags"), [], node, None)
        if how in ("sub", "subn"):
            return re_call(engine, st, how, pv, arg(args, kwargs, 2, "string", VTOP), arg(args, kwargs, 4, "flags"),
                           [arg(args, kwargs, 1, "repl", VTOP)], node, None)
        sn = None
        if hasattr(node, "args") and len(node.args) > 1:
            sn = node.args[1]
        fi = 3 if how == "split" else 2
        return re_call(engine, st, how, pv, arg(args, kwargs, 1, "string", VTOP), arg(args, kwargs, fi, "flags"), [], node, sn)

    ext("re." + how)(f)


for _h in RE_FUNCS:
    _mk_re(_h)


@ext("re.escape")
def re_escape(engine, st, args, kwargs, node):
    out = set()
    for a in args[0]:
        if isinstance(a, C) and isinstance(a.v, str):
            out.add(C(_re.escape(a.v)))
        else:
            out.add(S(ml=None))
    return [(st, frozenset(out))]


def match_group(engine, st, m, g, node):
    pat, fl, t = m.payload[:3]
    known = folded_match(m)
    if known is not None:
        try:
            return V(C(known.group(g)))
        except (IndexError, TypeError):
            engine.raise_exc(st, "IndexError", node, f"no such group {g!r}")
            return EMPTY
    taint = frozenset(t)
    if pat is None:
        return V(NONE, S(ml=0, taint=taint))
    p = sre(pat, fl)
    if isinstance(g, str):
        g2 = p.state.groupdict.get(g)
        if g2 is None:
            engine.raise_exc(st, "IndexError", node, f"no such group {g!r}")
            return EMPTY
        g = g2
    if g == 0:
        lo, lang, hi = sub_lang(p, pat, fl, 0)
        return V(S(ml=lo, taint=lang_taint(lang, taint), lang=lang, mx=hi))
    if not isinstance(g, int) or g >= p.state.groups or g < 0:
        engine.raise_exc(st, "IndexError", node, f"no such group {g!r}")
        return EMPTY
    sub = group_pattern(p, g)
    lo, lang, hi = sub_lang(sub, pat, fl, g) if sub is not None else (0, None, None)
    v = V(S(ml=lo, taint=lang_taint(lang, taint), lang=lang, mx=hi))
    if g in optional_groups(p)[0]:
        v = v | VNONE
    return v


def m_match(engine, st, m, name, args, kwargs, node):
    pat, fl, t = m.payload[:3]
    known = folded_match(m)
    if known is not None and name in ("start", "end") and all(len(v) == 1 and isinstance(next(iter(v)), C) for v in args):
        try:
            return [(st, V(C(getattr(known, name)(*[next(iter(v)).v for v in args]))))]
        except (IndexError, TypeError):
            pass
    if name == "group":
        if not args:
            args = [Cv(0)]
        vals = []
        for v in args:
            x = EMPTY
            for g in v:
                if isinstance(g, C):
                    x |= match_group(engine, st, m, g.v, node)
                else:
                    x |= V(NONE, S(ml=0, taint=frozenset(t)))
            if not x:
                return []
            vals.append(x)
        return [(st, vals[0])] if len(vals) == 1 else ret(st, T(vals))
    if name == "groups":
        d = arg(args, kwargs, 0, "default", VNONE)
        if pat is None:
            return ret(st, TN(V(S(taint=frozenset(t))) | d))
        p = sre(pat, fl)
        vs = []
        for g in range(1, p.state.groups):
            v = match_group(engine, st, m, g, node)
            if NONE in v:
                v = (v - VNONE) | d
            vs.append(v)
        return ret(st, T(vs))
    if name == "groupdict":
        p = sre(pat, fl) if pat is not None else None
        if p is None:
            return [(st, V(engine.alloc(st, node, DictO({}, V(S()), V(NONE, S(taint=frozenset(t)))), "gd")))]
        ent = {C(n): (match_group(engine, st, m, n, node), False) for n in p.state.groupdict}
        return [(st, V(engine.alloc(st, node, DictO(ent), "gd")))]
    if name in ("start", "end"):
        return ret(st, I(0, None))
    if name == "span":
        return ret(st, T([V(I(0, None)), V(I(0, None))]))
    if name == "expand":
        return ret(st, S(ml=None, taint=frozenset(t)))
    return [(st, VTOP)]


# ---------------------------------------------------------------- urllib.parse
def _text(engine, st, v, node, fname):
    t = engine.taint(st, v)
    for a in v:
        if isinstance(a, (I, F)) or (isinstance(a, C) and a.t not in ("str", "bytes", "NoneType") and a is not UNBOUND):
            engine.raise_exc(st, "TypeError", node, f"{fname} of {_e()._desc(a, st)}", weak=True)
        if isinstance(a, J) or isinstance(a, EI) and a.typ in ("http_sf.Token", "http_sf.DisplayString"):
            engine.raise_exc(st, "TypeError", node, f"{fname} of {_e()._desc(a, st)}")
        if isinstance(a, (R, W)) and isinstance(st.get(a.addr), (ListO, DictO, SetO)):
            engine.raise_exc(st, "TypeError", node, f"{fname} of {_e()._desc(a, st)}")
    return t


def _allconst(v):
    return all(isinstance(a, C) for a in v)


@ext("urllib.parse.urlsplit", "urllib.parse.urlparse")
def urlsplit(engine, st, args, kwargs, node):
    t = _text(engine, st, args[0], node, "urlsplit")
    if t:
        engine.raise_exc(st, "ValueError", node, "URL that cannot be split (such as 'http://[')")
    elif not _allconst(args[0]):
        engine.raise_exc(st, "ValueError", node, "URL that cannot be split", weak=True)
    return ret(st, EI("urllib.parse.SplitResult", tuple(sorted(t))))


@ext("urllib.parse.urljoin")
def urljoin(engine, st, args, kwargs, node):
    t = frozenset()
    for v in args[:2]:
        t = t | _text(engine, st, v, node, "urljoin")
    if t:
        engine.raise_exc(st, "ValueError", node, "URL that cannot be joined (such as 'http://[')")
    return ret(st, S(ml=0, taint=t))


@ext("urllib.parse.quote", "urllib.parse.quote_plus", "urllib.parse.quote_from_bytes")
def uquote(engine, st, args, kwargs, node):
    t = _text(engine, st, args[0], node, "quote")
    if ("user" in t or "json" in t) and not ("errors" in kwargs):
        engine.raise_exc(st, "UnicodeEncodeError", node, "quoting text that may hold lone surrogates")
    ml = joinml(args[0])
    return ret(st, S(ml=ml, taint=t))


@ext("urllib.parse.unquote", "urllib.parse.unquote_plus")
def uunquote(engine, st, args, kwargs, node):
    t = _text(engine, st, args[0], node, "unquote")
    return ret(st, S(ml=joinml(args[0]), taint=t))


def joinml(v):
    ml = None
    first = True
    for a in v:
        m = a.ml if isinstance(a, (S, B)) else len(a.v) if isinstance(a, C) and isinstance(a.v, (str, bytes)) else None
        ml = m if first else join_ml(ml, m)
        first = False
    return ml


@ext("urllib.parse.urlunsplit", "urllib.parse.urlunparse")
def urlunsplit(engine, st, args, kwargs, node):
    return ret(st, S(ml=0, taint=engine.taint(st, args[0]) | WIRE))


@ext("urllib.parse.parse_qs")
def parse_qs(engine, st, args, kwargs, node):
    return [(st, V(engine.alloc(st, node, DictO({}, V(S(taint=WIRE)), VTOP), "qs")))]


@ext("urllib.parse.urlencode")
def urlencode(engine, st, args, kwargs, node):
    return ret(st, S(taint=WIRE))


# ---------------------------------------------------------------- json
@ext("json.loads")
def json_loads(engine, st, args, kwargs, node):
    if engine.taint(st, args[0]) or not _allconst(args[0]):
        engine.raise_exc(st, "json.JSONDecodeError", node, "text that is not JSON")
        engine.raise_exc(st, "RecursionError", node, "deeply nested JSON")
        engine.raise_exc(st, "ValueError", node, "JSON number with too many digits",
                         value=V(EI("exc", "json.JSONDecodeError")))
    # text that starts as an array or object is one, if it is JSON at all
    first = {a.sym[1][0] if isinstance(a, S) and a.sym and a.sym[0] == "pre" else None for a in args[0]}
    if first == {"["}:
        return [(st, V(engine.new_list(st, node, None, V(J()), 0, None)))]
    if first == {"{"}:
        return ret(st, J(JKINDS - {"dict"}))
    return ret(st, J())


@ext("json.dumps")
def json_dumps(engine, st, args, kwargs, node):
    return ret(st, S(ml=1, taint=engine.taint(st, args[0])))


@ext("json.load", "json.dump")
def json_io(engine, st, args, kwargs, node):
    return ret(st, J())


# ---------------------------------------------------------------- http_sf
BARE = frozenset([I(-999999999999999, 999999999999999), EI("decimal.Decimal"), S(ml=0, taint=SFTEXT),
                  TRUE, FALSE, B(ml=0, taint=WIRE), EI("http_sf.Token"), EI("datetime.datetime"),
                  EI("http_sf.DisplayString")])


@ext("http_sf.parse")
def sf_parse(engine, st, args, kwargs, node):
    engine.raise_exc(st, "http_sf.StructuredFieldError", node, "text that is not a structured field",
                     value=V(EI("exc", "http_sf.StructuredFieldError")))
    typ = arg(args, kwargs, 1, "tltype", VTOP)
    engine.ext_args.setdefault("http_sf.parse", set()).update(repr(a.v) if isinstance(a, C) else "?" for a in typ)
    cb = arg(args, kwargs, None, "on_duplicate_key", None)
    if cb is not None and not cb <= VNONE:
        key = V(S(ml=1, taint=SFKEY))
        ctx = VNONE | V(S(ml=1, taint=SFKEY))
        s2 = st
        for _ in range(2):
            for s3, _v in engine.call(s2.fork(), cb - VNONE, [key, ctx], {}, node):
                s2 = join_states(s2, s3)
        st = s2
    out = []

    def params(s, tag):
        return V(engine.alloc(s, node, DictO({}, V(S(ml=1, taint=SFKEY)), BARE), "sfp" + tag))

    def member(s, tag):
        inner = T([BARE, params(s, tag + "i")])
        il = V(engine.alloc(s, node, ListO(None, V(inner), 0, None), "sfil" + tag))
        return T([BARE | il, params(s, tag)])

    kinds = set()
    for a in typ:
        if isinstance(a, C):
            kinds.add(str(a.v))
        else:
            kinds |= {"item", "list", "dictionary"}
    for k in sorted(kinds):
        s = st.fork()
        if k == "item":
            out.append((s, V(T([BARE, params(s, "t")]))))
        elif k == "list":
            out.append((s, V(engine.alloc(s, node, ListO(None, V(member(s, "l")), 0, None), "sfl"))))
        elif k == "dictionary":
            out.append((s, V(engine.alloc(s, node, DictO({}, V(S(ml=1, taint=SFKEY)),
                                                           V(member(s, "d"))), "sfd"))))
        else:
            engine.raise_exc(s, "ValueError", node, f"unknown structured type {k}")
    return out


@ext("http_sf.ser")
def sf_ser(engine, st, args, kwargs, node):
    engine.raise_exc(st, "ValueError", node, "value that cannot be serialised", weak=True)
    return ret(st, S(ml=0, taint=engine.taint(st, args[0]) | WIRE))


@ext("http_sf.Token", "http_sf.DisplayString")
def sf_token(engine, st, args, kwargs, node):
    n = node.func.attr if hasattr(node.func, "attr") else getattr(node.func, "id", "Token")
    return ret(st, EI("http_sf." + ("DisplayString" if "Display" in n else "Token")))


# ---------------------------------------------------------------- time and numbers
@ext("time.time", "time.monotonic", "time.perf_counter")
def t_time(engine, st, args, kwargs, node):
    return ret(st, F(True))


@ext("time.strftime", "time.ctime", "time.asctime")
def t_strftime(engine, st, args, kwargs, node):
    return ret(st, S(ml=1))


@ext("time.gmtime", "time.localtime")
def t_gmtime(engine, st, args, kwargs, node):
    return ret(st, T([V(I())] * 9))


@ext("email.utils.parsedate", "email._parseaddr.parsedate")
def parsedate(engine, st, args, kwargs, node):
    ok, text = const1(args[0])
    if ok and isinstance(text, str):
        got = email.utils.parsedate(text)
        return ret(st, C(None)) if got is None else ret(st, T([Cv(x) for x in got]))
    # month 1-12, year up to 9999 for any text the callers accept; other parts are unbounded
    return [(st.fork(), VNONE), (st, V(T([V(I(0, None)), V(I(1, 12)), V(I(0, 31)), V(I(0, 99)), V(I(0, 99)), V(I(0, 99)),
                                         Cv(0), Cv(1), Cv(-1)])))]


@ext("email.utils.parsedate_to_datetime")
def parsedate_dt(engine, st, args, kwargs, node):
    engine.raise_exc(st, "ValueError", node, "not a date")
    return ret(st, EI("datetime.datetime"))


@ext("email.utils.parsedate_tz")
def parsedate_tz(engine, st, args, kwargs, node):
    return [(st.fork(), VNONE), (st, V(T([V(I(0, None))] * 9 + [VNONE | V(I())])))]


@ext("calendar.timegm")
def timegm(engine, st, args, kwargs, node):
    x = engine.exact_elems(st, args[0])
    if x is not None and all(const1(v)[0] and isinstance(const1(v)[1], int) for v in x):
        try:
            return ret(st, C(calendar.timegm(tuple(const1(v)[1] for v in x))))
        except ValueError:
            engine.raise_exc(st, "ValueError", node, "date out of range")
            return []
    engine.raise_exc(st, "ValueError", node, "date out of range")
    return ret(st, I(None, None))


@ext("datetime.datetime.fromtimestamp", "datetime.datetime.utcfromtimestamp")
def fromts(engine, st, args, kwargs, node):
    if not _allconst(args[0]):
        engine.raise_exc(st, "ValueError", node, "timestamp out of range")
        engine.raise_exc(st, "OverflowError", node, "timestamp out of range")
    return ret(st, EI("datetime.datetime"))


@ext("datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today")
def dtnow(engine, st, args, kwargs, node):
    return ret(st, EI("datetime.datetime"))


@ext("datetime.datetime")
def datetime_new(engine, st, args, kwargs, node):
    vals = [const1(v) for v in args]
    if vals and not kwargs and all(k and isinstance(v, int) for k, v in vals):
        try:
            datetime.datetime(*[v for _, v in vals])
        except ValueError:
            engine.raise_exc(st, "ValueError", node, "no such day or time")
            return []
        except TypeError:
            engine.raise_exc(st, "TypeError", node, "arguments of datetime")
            return []
        return ret(st, EI("datetime.datetime"))
    engine.raise_exc(st, "ValueError", node, "no such day or time")
    return ret(st, EI("datetime.datetime"))


@ext("datetime.datetime.strptime", "datetime.datetime.fromisoformat", "datetime.date")
def dtnew(engine, st, args, kwargs, node):
    if kwargs or not all(_allconst(v) for v in args):
        engine.raise_exc(st, "ValueError", node, "date out of range")
    return ret(st, EI("datetime.datetime"))


@ext("datetime.timedelta")
def tdelta(engine, st, args, kwargs, node):
    for v in list(args) + [x for x, _ in kwargs.values()]:
        for a in v:
            if isinstance(a, I) and (a.big or a.hi is None or a.lo is None or a.hi > 10 ** 13) or isinstance(a, F):
                engine.raise_exc(st, "OverflowError", node, "time span beyond what a timedelta holds")
            elif stringy(a) or (isinstance(a, C) and a.v is None):
                engine.raise_exc(st, "TypeError", node, f"timedelta of {_e()._desc(a)}")
    return ret(st, EI("datetime.timedelta"))


@ext("datetime.timezone", "datetime.timezone.utc")
def tz(engine, st, args, kwargs, node):
    return ret(st, EI("datetime.timezone"))


@ext("decimal.Decimal")
def dec(engine, st, args, kwargs, node):
    return ret(st, EI("decimal.Decimal"))


@ext("locale.format_string", "locale.currency")
def locfmt(engine, st, args, kwargs, node):
    from .m_ops import str_mod

    for a in args[0]:
        if isinstance(a, C) and isinstance(a.v, str):
            for b_ in args[1]:
                str_mod(engine, st, a, b_, node)
    return ret(st, S(ml=1, taint=engine.taint(st, args[1])))


# ---------------------------------------------------------------- codecs, hashing, compression
@ext("codecs.lookup")
def cod_lookup(engine, st, args, kwargs, node):
    ok, name = const1(args[0])
    if ok and isinstance(name, str):
        try:
            return ret(st, EI("codecs.CodecInfo", codecs.lookup(name).name))
        except (LookupError, ValueError) as why:
            engine.raise_exc(st, type(why).__name__, node, "codecs.lookup()")
            return []
    t = engine.taint(st, args[0])
    if t:
        engine.raise_exc(st, "LookupError", node, "unknown encoding name")
        if t & {"nul", "user", "json", "display"}:
            engine.raise_exc(st, "ValueError", node, "encoding name holding a NUL")
        if "user" in t or "json" in t:
            engine.raise_exc(st, "UnicodeEncodeError", node, "encoding name holding lone surrogates")
    elif not _allconst(args[0]):
        engine.raise_exc(st, "LookupError", node, "unknown encoding name")
    for a in args[0]:
        if isinstance(a, C) and a.v is None:
            engine.raise_exc(st, "TypeError", node, "codecs.lookup(None)")
    return ret(st, EI("codecs.CodecInfo"))


@ext("binascii.b2a_hex", "binascii.hexlify", "base64.b64encode", "base64.urlsafe_b64encode")
def b2a(engine, st, args, kwargs, node):
    return ret(st, B(ml=joinml(args[0]), taint=frozenset(["ascii"])))


@ext("base64.b64decode", "base64.urlsafe_b64decode", "base64.standard_b64decode", "binascii.a2b_hex",
     "binascii.unhexlify", "binascii.a2b_base64")
def b64d(engine, st, args, kwargs, node):
    engine.raise_exc(st, "binascii.Error", node, "text that is not base64 or hex")
    for a in args[0]:
        if stringy(a):
            engine.raise_exc(st, "ValueError", node, "non-ASCII text to decode")
    return ret(st, B(taint=WIRE))


@ext("hashlib.new", "hashlib.md5", "hashlib.sha1", "hashlib.sha256", "hashlib.sha512")
def hnew(engine, st, args, kwargs, node):
    return [(st, V(engine.alloc(st, node, ExtO("hashlib.hash"), "hash")))]


@ext("zlib.decompressobj")
def zdec(engine, st, args, kwargs, node):
    ok, wbits = const1(args[0]) if args else (True, zlib.MAX_WBITS)
    if engine.scenario and ok and isinstance(wbits, int) and not kwargs and len(args) < 2:
        return [(st, V(engine.alloc(st, node, ExtO("zlib.Decompress", {
            "$fed": V(C(repr((wbits, [])))), "unconsumed_tail": V(C(b"")), "unused_data": V(C(b"")), "eof": V(FALSE)}), "z")))]
    return [(st, V(engine.alloc(st, node, ExtO("zlib.Decompress", {
        "unconsumed_tail": V(B(taint=WIRE)), "unused_data": V(B(taint=WIRE)), "eof": VBOOL}), "z")))]


@ext("zlib.decompress", "gzip.decompress")
def zdec1(engine, st, args, kwargs, node):
    engine.raise_exc(st, "zlib.error", node, "corrupt data")
    return ret(st, B(taint=WIRE))


@ext("zlib.crc32", "zlib.adler32", "binascii.crc32")
def zcrc(engine, st, args, kwargs, node):
    return ret(st, I(0, 2 ** 32 - 1))


@ext("brotli.Decompressor")
def bdec(engine, st, args, kwargs, node):
    return [(st, V(engine.alloc(st, node, ExtO("brotli.Decompressor"), "br")))]


def zlib_exact(engine, st, r, o, name, args, kwargs, node):
    """What a decompressor makes of constants, if it has been fed nothing else."""
    ok, fed = const1(o.attrs.get("$fed", EMPTY))
    if not ok or o.many:
        return None
    at = [const1(v) for v in args]
    if name == "decompress" and "max_length" in kwargs:
        at.append(const1(kwargs["max_length"][0]))
    wbits, hist = eval(fed)
    z = zlib.decompressobj(wbits)
    if not all(k for k, _ in at):
        new = {"unconsumed_tail": V(B(taint=WIRE)), "unused_data": V(B(taint=WIRE)), "eof": VBOOL}
        engine.put(st, r.addr, ExtO(o.typ, new, o.many))
        return None
    hist = hist + [(name, [x for _, x in at])]
    try:
        for n, a in hist:
            out = getattr(z, n)(*a)
    except (zlib.error, ValueError, TypeError) as why:
        engine.raise_exc(st, "zlib.error" if isinstance(why, zlib.error) else type(why).__name__, node, str(why))
        return []
    engine.put(st, r.addr, ExtO(o.typ, {
        "$fed": V(C(repr((wbits, hist)))), "unconsumed_tail": V(C(z.unconsumed_tail)), "unused_data": V(C(z.unused_data)),
        "eof": V(TRUE if z.eof else FALSE)}, o.many))
    return ret(st, C(out))


def exto_method(engine, st, r, o, name, args, kwargs, node):
    h = engine.hooks.get("extobj")
    if h:
        h(engine, st, r, o, name, args, kwargs, node)
    if o.typ == "hashlib.hash":
        if name == "update":
            for v in args:
                for a in v:
                    if stringy(a) or (isinstance(a, C) and a.v is None):
                        engine.raise_exc(st, "TypeError", node, f"hash of {_e()._desc(a)}")
            return ret(st, NONE)
        if name == "digest":
            return ret(st, B(ml=1))
        if name == "hexdigest":
            return ret(st, S(ml=1))
        if name == "copy":
            return [(st, V(R(r.addr)))]
    if o.typ == "zlib.Decompress":
        if name in ("decompress", "flush"):
            done = zlib_exact(engine, st, r, o, name, args, kwargs, node)
            if done is not None:
                return done
            engine.raise_exc(st, "zlib.error", node, "corrupt compressed data")
            return ret(st, B(taint=WIRE))
    if o.typ == "brotli.Decompressor":
        if name in ("process", "decompress", "flush", "finish"):
            engine.raise_exc(st, "brotli.error", node, "corrupt compressed data")
            return ret(st, B(taint=WIRE))
        if name in ("is_finished", "can_accept_more_data"):
            return [(st, VBOOL)]
    if o.typ == "argparse.ArgumentParser":
        return [(st, VTOP)]
    if o.typ == "contextvars.ContextVar":
        d = o.attrs.get("$v", VNONE)
        if name == "get":
            # the default, or whatever of its kind the application has set
            return [(st, V(S(ml=1)) if any(stringy(x) for x in d) else d | VTOP)]
        return [(st, VTOP)]
    engine.havoc_args(st, args, kwargs)
    return [(st, VTOP)]


@ext("chardet.detect")
def chardet(engine, st, args, kwargs, node):
    d = DictO({C("encoding"): (V(NONE, S(ml=1)), False), C("confidence"): (V(F()), False),
               C("language"): (V(NONE, S(ml=0)), False)})
    return [(st, V(engine.alloc(st, node, d, "cd")))]


@ext("sniffpy.sniff")
def sniff(engine, st, args, kwargs, node):
    engine.raise_exc(st, "ValueError", node, "media type that cannot be parsed")
    engine.raise_exc(st, "TypeError", node, "media type that cannot be parsed", weak=True)
    return ret(st, EI("sniffpy.MIMEType"))


# ---------------------------------------------------------------- translations, markup
@ext("babel.support.Translations.load", "gettext.translation")
def tr_load(engine, st, args, kwargs, node):
    return ret(st, EI("babel.Translations"))


@ext("babel.support.NullTranslations", "babel.support.Translations")
def tr_null(engine, st, args, kwargs, node):
    return ret(st, EI("babel.Translations"))


@ext("babel.dates.format_timedelta")
def fmt_td(engine, st, args, kwargs, node):
    return ret(st, S(ml=1))


@ext("markdown.Markdown")
def md_new(engine, st, args, kwargs, node):
    return ret(st, EI("markdown.Markdown"))


@ext("markdown.markdown")
def md_fn(engine, st, args, kwargs, node):
    return ret(st, S(ml=0, taint=engine.taint(st, args[0])))


@ext("markupsafe.Markup")
def markup(engine, st, args, kwargs, node):
    t = engine.taint(st, args[0]) if args else frozenset()
    h = engine.hooks.get("html")
    if h and t & {"lt", "sp", "bl"}:
        h(engine, st, args, node)
    return ret(st, S(ml=0 if not args else joinml(args[0]), taint=t - md.LABELS))


@ext("markupsafe.escape", "html.escape")
def mescape(engine, st, args, kwargs, node):
    t = engine.taint(st, args[0])
    return ret(st, S(ml=joinml(args[0]), taint=md.cut(t) - {"lt"} if t & md.LABELS else frozenset()))


@ext("contextvars.ContextVar")
def ctxvar(engine, st, args, kwargs, node):
    d = kwargs.get("default", (VNONE, False))[0]
    return [(st, V(engine.alloc(st, node, ExtO("contextvars.ContextVar", {"$v": d}), "cv")))]


@ext("threading.local")
def tlocal(engine, st, args, kwargs, node):
    return [(st, V(engine.alloc(st, node, ExtO("threading.local"), "tl")))]


@ext("threading.Lock", "threading.RLock")
def tlock(engine, st, args, kwargs, node):
    return [(st, V(engine.alloc(st, node, ExtO("threading.Lock"), "lk")))]


# ---------------------------------------------------------------- structure
@ext("functools.partial")
def partial(engine, st, args, kwargs, node):
    out = set()
    for f in args[0]:
        if isinstance(f, (C, S, I)) and f is not UNBOUND:
            engine.raise_exc(st, "TypeError", node, "partial of a non-callable")
            continue
        kw = [(n, v) for n, (v, m) in kwargs.items() if n not in ("*", "**")]
        out.add(Partial(f, args[1:], kw))
    return [(st, frozenset(out))] if out else []


@ext("functools.wraps")
def wraps(engine, st, args, kwargs, node):
    return ret(st, EI("decorator", "wraps"))


@ext("functools.reduce")
def reduce_(engine, st, args, kwargs, node):
    return [(st, VTOP)]


@ext("functools.lru_cache", "functools.cache")
def lru(engine, st, args, kwargs, node):
    if args and any(isinstance(a, Fn) for a in args[0]):
        return [(st, args[0])]
    return ret(st, EI("decorator", "cache"))


@ext("dataclasses.dataclass")
def dcls(engine, st, args, kwargs, node):
    return ret(st, EI("decorator", "dataclass"))


@ext("dataclasses.field")
def dfield(engine, st, args, kwargs, node):
    if "default" in kwargs:
        return [(st, kwargs["default"][0])]
    if "default_factory" in kwargs:
        (f,) = kwargs["default_factory"][0] if len(kwargs["default_factory"][0]) == 1 else (TOP,)
        return ret(st, EI("dataclasses.factory", f))
    return ret(st, EI("dataclasses.required"))


@ext("enum.auto")
def eauto(engine, st, args, kwargs, node):
    return ret(st, EI("enum.auto"))


@ext("contextlib.suppress")
def csuppress(engine, st, args, kwargs, node):
    names = []
    for v in args:
        for a in v:
            n, _ = engine.exc_name(st, a)
            names.append(n or "Exception")
    return ret(st, EI("contextlib.suppress", tuple(names)))


@ext("contextlib.nullcontext")
def cnull(engine, st, args, kwargs, node):
    return ret(st, EI("ctxval", args[0] if args else VNONE))


@ext("weakref.proxy")
def wproxy(engine, st, args, kwargs, node):
    out = set()
    for a in args[0]:
        if isinstance(a, (R, W)):
            out.add(W(a.addr))
        elif isinstance(a, (C, S, I)):
            engine.raise_exc(st, "TypeError", node, "weak reference to " + _e()._desc(a))
        else:
            out.add(a)
    return [(st, frozenset(out))] if out else []


@ext("weakref.ref")
def wref(engine, st, args, kwargs, node):
    out = set()
    for a in args[0]:
        if isinstance(a, (R, W)):
            out.add(WR(a.addr))
        else:
            out.add(TOP)
    return [(st, frozenset(out))] if out else []


@ext("typing.cast", "typing_extensions.cast")
def tcast(engine, st, args, kwargs, node):
    return [(st, args[1])]


@ext("typing.TypeVar", "typing.NewType", "typing_extensions.TypeVar", "typing.ParamSpec")
def ttvar(engine, st, args, kwargs, node):
    return ret(st, EI("typing.TypeVar", const1(args[0])[1] if args else None))


@ext("typing.get_origin", "typing_extensions.get_origin")
def tgo(engine, st, args, kwargs, node):
    out = set()
    for a in args[0]:
        if isinstance(a, GA):
            out.add(a.origin)
        elif isinstance(a, Top):
            out.add(TOP)
        else:
            out.add(NONE)
    return [(st, frozenset(out))]


@ext("typing.get_args", "typing_extensions.get_args")
def tga(engine, st, args, kwargs, node):
    out = set()
    for a in args[0]:
        if isinstance(a, GA):
            out.add(T([V(x) for x in a.args]))
        elif isinstance(a, Top):
            out.add(TN(VTOP))
        else:
            out.add(T([]))
    return [(st, frozenset(out))]


@ext("types.SimpleNamespace")
def simplens(engine, st, args, kwargs, node):
    return [(st, V(engine.alloc(st, node, Obj(None, {k: v for k, v in kwargs.items()}), "ns")))]


@ext("importlib.import_module")
def imp_mod(engine, st, args, kwargs, node):
    ok, n = const1(args[0])
    if ok and engine.find_module(n):
        st = engine.import_module(n, st, node)
        return ret(st, Mod(n))
    if ok and engine.phase == "init":
        return ret(st, Ext(n))
    if ok:
        return ret(st, Ext(n))
    engine.raise_exc(st, "ModuleNotFoundError", node, "import of a computed name", weak=not engine.taint(st, args[0]))
    return [(st, VTOP)]


@ext("pkgutil.extend_path")
def ext_path(engine, st, args, kwargs, node):
    ok, n = const1(args[1])
    return ret(st, EI("pkgpath", n if ok else None))


@ext("pkgutil.walk_packages", "pkgutil.iter_modules")
def walkp(engine, st, args, kwargs, node):
    path = arg(args, kwargs, 0, "path", VNONE)
    pre = arg(args, kwargs, 1, "prefix", Cv(""))
    ok, prefix = const1(pre)
    pkg = None
    for a in path:
        if isinstance(a, EI) and a.typ == "pkgpath":
            pkg = a.payload
    if pkg is None and ok and prefix:
        pkg = prefix.rstrip(".")
    f = engine.find_module(pkg) if pkg else None
    if f is None:
        return [(st, VTOP)]
    d = os.path.dirname(f)
    items = []
    for n in sorted(os.listdir(d)):
        if n.endswith(".py") and n != "__init__.py":
            items.append((n[:-3], False))
        elif os.path.isfile(os.path.join(d, n, "__init__.py")):
            items.append((n, True))
    els = [V(T([VTOP, Cv((prefix if ok else "") + n), Cv(isp)])) for n, isp in items]
    return [(st, V(engine.new_list(st, node, els)))]


@ext("os.path.join")
def ospj(engine, st, args, kwargs, node):
    return ret(st, S(ml=1))


@ext("os.path.dirname", "os.path.abspath", "os.path.basename")
def ospd(engine, st, args, kwargs, node):
    return ret(st, S(ml=0))


@ext("os.path.exists", "os.path.isfile", "os.path.isdir")
def ospe(engine, st, args, kwargs, node):
    return [(st, VBOOL)]


@ext("sys.exit", "os._exit")
def sysexit(engine, st, args, kwargs, node):
    engine.raise_exc(st, "SystemExit", node, "sys.exit()")
    return []


@ext("copy.copy")
def copycopy(engine, st, args, kwargs, node):
    out = set()
    for a in args[0]:
        if isinstance(a, R):
            o = st.get(a.addr)
            import copy

            out.add(engine.alloc(st, node, copy.copy(o), "copy"))
        else:
            out.add(a)
    return [(st, frozenset(out))]


@ext("copy.deepcopy")
def copydeep(engine, st, args, kwargs, node):
    return copycopy(engine, st, args, kwargs, node)


@ext("itertools.chain")
def chain(engine, st, args, kwargs, node):
    el, lo, hi = EMPTY, 0, 0
    xs = []
    for v in args:
        x = engine.exact_elems(st, v)
        if x is None:
            xs = None
        elif xs is not None:
            xs = xs + x
        e, l, h = engine.summary_elems(st, v, node)
        el = join(el, e)
        lo += l
        hi = None if hi is None or h is None else hi + h
    if xs is not None:
        return [(st, V(engine.new_list(st, node, xs)))]
    return [(st, V(engine.new_list(st, node, None, el, lo, hi)))]


@ext("itertools.chain.from_iterable")
def chainf(engine, st, args, kwargs, node):
    el, _, _ = engine.summary_elems(st, args[0], node)
    e2, _, _ = engine.summary_elems(st, el, node) if el else (EMPTY, 0, 0)
    return [(st, V(engine.new_list(st, node, None, e2, 0, None)))]


@ext("itertools.groupby", "itertools.islice", "itertools.zip_longest", "itertools.product", "itertools.combinations")
def itmisc(engine, st, args, kwargs, node):
    return [(st, V(engine.new_list(st, node, None, VTOP, 0, None)))]


@ext("operator.itemgetter", "operator.attrgetter")
def opget(engine, st, args, kwargs, node):
    return [(st, VTOP)]


@ext("string.Template")
def stpl(engine, st, args, kwargs, node):
    return [(st, VTOP)]
