"""Drive the abstract interpreter over complete linting histories of the package."""

from __future__ import annotations

import ast
import os
import sys
import time

from .atoms import *
from .engine import AnalysisBroken, Engine, Frame, Catcher
from .state import DictO, ExtO, ListO, Obj, SetO, State, UNBOUND, Unknown

sys.setrecursionlimit(60000)

HARNESS_FN = '''
def render_note(notes, subject, note, category, vrs):
    n = notes.add(subject, note, category, **vrs)
    str(n)
    n.summary
    n.detail
    n == n
'''


class Lint:
    def __init__(self, root, harness, catalog=None, package="httplint"):
        self.e = e = Engine(root, package)
        e.catalog = catalog or {}
        st = e.import_module(package, State())
        if package not in e.mods:
            raise AnalysisBroken(f"package {package} not found under {root}")
        self.imported = st
        self.init_alarms = dict(e.alarms)
        self.init_undecided = dict(e.undecided)
        self.mod = None
        self.note_memo = {}
        self.note_events = {}  # (note class, creation qual) -> set of var names
        self.notes_adds = 0
        self.notes_seen = set()  # (note class, subject or None, function that adds it)
        self.render = True
        self.add_qual = self._find_add(st)
        e.hooks["call"] = self.on_call
        e.hooks["observe"] = self.on_observe
        self.logging = False
        self.groups = {}
        self.inside = 0
        self.elapsed = 0.0

        if harness:
            self.load(harness)

    def load(self, harness):
        """Add the scenario's own module; from here on the package's state after import is the base."""
        e = self.e
        e.load_source("$h", harness + HARNESS_FN)
        e.alarms.clear()
        st = e.run_module("$h", self.imported)
        if e.alarms:
            raise AnalysisBroken(f"scenario module fails: {list(e.alarms)}")
        e.undecided.clear()
        st.put(LOG, Obj(None, {}))
        e.base = st.heap
        e.phase = "lint"
        self.mod = st.get(("mod", "$h"))

    def _find_add(self, st):
        """Qualified name of Notes.add as the package exports it."""
        e = self.e
        o = st.get(("mod", e.package))
        v = o.attrs.get("Notes", (EMPTY, True))[0]
        for a in v:
            if isinstance(a, Cls):
                f = e.class_lookup(st, a.qual, "add")
                for x in f or ():
                    if isinstance(x, Fn):
                        args = e.fns[x.fid].node.args
                        e.add_params, e.add_kwarg = args.args, args.kwarg and args.kwarg.arg
                        return e.fns[x.fid].qual
        return None

    # ------------------------------------------------------------ notes
    def vkey(self, st, v, depth=0):
        return frozenset(self.akey(st, a, depth) for a in v)

    def akey(self, st, a, depth):
        if isinstance(a, (R, W)):
            if depth > 3:
                return ("deep",)
            o = st.get(a.addr)
            if isinstance(o, Obj):
                return ("obj", o.cls, tuple(sorted((n, m, self.vkey(st, v, depth + 1)) for n, (v, m) in o.attrs.items())
                                            if depth < 3 else ()))
            if isinstance(o, ListO):
                return ("list", self.vkey(st, o.elem, depth + 1), o.lo, o.hi, o.unord)
            if isinstance(o, SetO):
                return ("set", self.vkey(st, o.elem, depth + 1), o.lo, o.hi)
            if isinstance(o, DictO):
                return ("dict", tuple((k, m, self.vkey(st, v, depth + 1)) for k, (v, m) in o.ent.items()),
                        o.okey, self.vkey(st, o.oval, depth + 1))
            return ("?", a.addr)
        if isinstance(a, T):
            return ("t",) + tuple(self.vkey(st, x, depth + 1) for x in a.elems)
        return a

    def on_call(self, e, st, fi, loc, node):
        h = self.extra_call if hasattr(self, "extra_call") else None
        if h:
            r = h(e, st, fi, loc, node)
            if r is not None:
                return r
        if fi.qual != self.add_qual or self.inside:
            return None
        if not getattr(node, "_unused", False):
            self.record(st, loc, node)
            return None
        self.notes_adds += 1
        self.record(st, loc, node)
        return [(st, VNONE)]

    def log(self, st, key, v):
        o = st.get(LOG)
        attrs = dict(o.attrs)
        old = attrs.get(key)
        attrs[key] = (join(old[0], v) if old else v, False)
        st.put(LOG, Obj(None, attrs))

    def on_observe(self, st, label, v):
        self.log(st, ("seen", label), v)

    def log_note(self, st, loc, params):
        """The notes of this path: their class, and what they say about which part of the message."""
        kw = self.e.add_kwarg
        field = EMPTY
        for a in loc.get(kw, EMPTY):
            o = st.get(a.addr) if isinstance(a, (R, W)) else None
            if isinstance(o, DictO) and C("field_name") in o.ent:
                field = join(field, o.ent[C("field_name")][0])
        cls = loc.get(params[2], EMPTY)
        for a in cls:
            q = a.qual.rsplit(".", 1)[-1] if isinstance(a, Cls) else repr(a)
            o = st.get(LOG)
            attrs = dict(o.attrs)
            k = ("note", q)
            v = frozenset((T([s, f]) if False else T([V(s), V(f)])) for s in loc.get(params[1], EMPTY)
                          for f in (field or VNONE))
            old, maybe = attrs.get(k, (EMPTY, True))
            attrs[k] = (old | v if len(old | v) < 12 else VTOP, maybe and len(cls) > 1)
            for g in self.groups.get(q, ()):
                c, maybe = attrs.get(("count", g), (EMPTY, True))
                have = {x.v for x in c} | ({0} if maybe else set())
                attrs[("count", g)] = (frozenset(C(min(n + d, 3)) for n in have for d in ((0, 1) if len(cls) > 1 else (1,))),
                                       False)
            st.put(LOG, Obj(None, attrs))

    def record(self, st, loc, node):
        e = self.e
        params = [a.arg for a in e.add_params]
        if self.logging and len(params) > 2:
            self.log_note(st, loc, params)
        for a in loc.get(params[2], EMPTY) if len(params) > 2 else ():
            q = a.qual.rsplit(".", 1)[-1] if isinstance(a, Cls) else repr(a)
            for s in loc.get(params[1], EMPTY):
                self.notes_seen.add((q, s.v if isinstance(s, C) else None, e.qual()))
        if not self.render:
            return
        # everything but the note list itself, which rendering does not read
        names = [n for n in loc if n != "self"]
        selfv = loc.get("self", EMPTY)
        dv = EMPTY
        try:
            key = (id(node), tuple((n, self.vkey(st, loc[n])) for n in names))
        except TypeError:
            key = None
        if key is not None and key in self.note_memo:
            return
        self.note_memo[key] = True
        creator = e.qual()
        s = st.fork()
        saved = (e.catchers, e.frame, e.loops)
        e.catchers = []
        self.inside += 1
        e.memo_tag = self.inside
        fn = self.mod.attrs["render_note"][0]
        args = [selfv] + [loc[n] for n in names]
        call = _CALL
        try:
            # s.locals belong to the caller
            e.call(s, fn, args, {}, call)
        finally:
            self.inside -= 1
            e.memo_tag = self.inside or None
            (e.catchers, e.frame, e.loops) = saved
        nv = loc.get("note", EMPTY)
        vr = loc.get("vrs", EMPTY)
        for a in nv:
            q = a.qual if isinstance(a, Cls) else repr(a)
            vs = set()
            for x in vr:
                o = st.get(x.addr) if isinstance(x, R) else None
                if isinstance(o, DictO):
                    vs |= {k.v for k in o.ent if isinstance(k, C)}
            self.note_events.setdefault((q, creator), set()).update(vs)

    # ------------------------------------------------------------ running
    def run(self, name="main", args=()):
        e = self.e
        t = time.time()
        st = State(heap={}, base=e.base)
        fn = self.mod.attrs[name][0]
        e.frame = Frame(None, "$h", "module", e.ctx_of(0, name), 0, ns=("mod", "$h"))
        e.catchers = []
        e.loops = []
        r = e.call(st, fn, list(args), {}, _CALL2)
        self.elapsed += time.time() - t
        return r

    def outcome(self, name):
        """Run one scenario; {key: (on every path?, values as text)} of its log, None when no path ends."""
        final = None
        for s, _ in self.run(name):
            o = s.get(LOG)
            final = o if final is None else final.join(o)
        if final is None:
            return None
        return {k: (not m, sorted(_text(a) for a in v)) for k, (v, m) in final.attrs.items()}


LOG = ("scenario", "log")


def _text(a):
    if isinstance(a, C):
        return repr(a.v)
    if isinstance(a, T):
        return "(" + ", ".join("|".join(sorted(_text(x) for x in e)) for e in a.elems) + ")"
    if isinstance(a, Cls):
        return a.qual.rsplit(".", 1)[-1]
    return repr(a)


_CALL = ast.parse("render_note()").body[0].value
_CALL2 = ast.parse("main()").body[0].value
