"""Whole-program abstract interpreter for the analysed Python package.

Nothing of the analysed program is imported or run: the interpreter reads its syntax trees and
computes, for every construct reachable from a harness, a bounded disjunction of abstract values.
"""

from __future__ import annotations

import ast
import builtins
import os
import sys

from .atoms import *
from . import md
from .atoms import subst, atom_refs, refs_of
from .state import (REC, Rec, DictO, ExtO, ListO, Obj, SetO, State, UNB, UNBOUND, Unknown, join_states,
                    same_state, sig)

sys.setrecursionlimit(20000)

PATH_LIMIT = 10
RET_LIMIT = 6
LOOP_ITERS = 25


class AnalysisBroken(Exception):
    """An anchor of the analysis is missing: an error of the check, never a verdict."""


class FnInfo:
    def __init__(self, fid, node, mod, qual, cls):
        self.fid = fid
        self.node = node
        self.mod = mod
        self.qual = qual
        self.cls = cls
        self.outer = None
        self.decorators = []
        self.is_gen = False
        self.locals = set()
        self.captured = set()
        self.globals = set()
        self.nonlocals = set()


class ClassInfo:
    def __init__(self, qual, name, mod, node):
        self.qual = qual
        self.name = name
        self.mod = mod
        self.node = node
        self.bases = []
        self.orig_bases = []
        self.mro = []  # list of atoms (Cls / Ext)
        self.dataclass = False
        self.enum = False
        self.annots = []
        self.typeddict = False

    @property
    def addr(self):
        return ("cls", self.qual)


class Frame:
    __slots__ = ("fn", "mod", "cls", "env", "kind", "ctx", "returns", "depth", "call", "ns", "exc", "yields")

    def __init__(self, fn, mod, kind, ctx, depth, cls=None, env=None, ns=None, call=None):
        self.fn = fn
        self.mod = mod
        self.kind = kind
        self.ctx = ctx
        self.depth = depth
        self.cls = cls
        self.env = env
        self.ns = ns
        self.returns = []
        self.call = call
        self.exc = []
        self.yields = None


class Catcher:
    __slots__ = ("types", "depth", "caught", "any", "reasons")

    def __init__(self, types, depth):
        self.types = types  # list (one per handler) of list of exc names, or None = everything
        self.depth = depth
        self.caught = []  # (handler index, state, exc, excV)
        self.reasons = []


class Summary:
    __slots__ = ("deps", "allocs", "outs", "excs")


def delta(old, new):
    return {a: o for a, o in new.items() if old.get(a) is not o}


def const_key(a):
    """Atoms that stand for exactly one hashable value."""
    k = a.__class__
    if k is C or k is Cls or k is Ext or k is EnumM or k is GA:
        return True
    if k is T:
        return all(len(e) == 1 and const_key(next(iter(e))) for e in a.elems)
    if k is EI:
        return a.typ == "typing.TypeVar"
    return False


class Engine:
    def __init__(self, root, package="httplint", stubs=None, harness=None):
        self.root = root
        self.package = package
        self.mods = {}  # name -> ast.Module
        self.src = {}
        self.classes = {}
        self.fns = {}
        self.fn_by_node = {}
        self.ctxs = {}
        self.frame = None
        self.catchers = []
        self.loops = []
        self.alarms = {}
        self.undecided = {}
        self.sites = set()
        self.unsupported = {}
        self.events = []
        self.hooks = {}
        self.on_attr = None  # called before an attribute of an object is read
        self.steps = 0
        self.max_steps = 40_000_000
        self.phase = "init"
        self.stackqual = []
        self.base = None
        self.reached = set()
        self.notes_on = True
        self.tag = None
        self.imported = set()
        self.stub_dir = os.path.join(os.path.dirname(__file__), "stubs")
        self.stub_mods = {f[:-3].replace("__", "."): os.path.join(self.stub_dir, f)
                          for f in os.listdir(self.stub_dir) if f.endswith(".py")}
        self.modfile = {}
        self.global_writes = {}
        self.degraded = {}
        self.set_iters = {}
        self.effects = {}
        self.regex_uses = {}
        self.ext_args = {}  # library function -> constants it is given
        self.keys_of = {}
        self.alloc_hint = {}
        self.summaries = {}
        self.memo_hit = self.memo_miss = 0
        self.memo_tag = None
        self.rec_limit = 2
        self.bounded = set()
        self.path_limit = PATH_LIMIT
        self.memo = {}
        self.memo_on = True
        self.impure = set()
        self.unmodelled = {}
        self.once_of = {}
        self.seq_of = {}  # scenarios: dict view address -> (element, entries in order with maybe-absent, other entries)
        self.scenario = False
        self.implied = {}
        from . import models

        self.models = models
        self.ext = models.EXT

    # ------------------------------------------------------------------ loading
    def find_module(self, name):
        if name in self.stub_mods:
            return self.stub_mods[name]
        if name == self.package or name.startswith(self.package + "."):
            p = os.path.join(self.root, *name.split("."))
            if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
                return os.path.join(p, "__init__.py")
            if os.path.exists(p + ".py"):
                return p + ".py"
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        f = self.find_module(name)
        if f is None:
            return None
        with open(f, encoding="utf-8") as fh:
            src = fh.read()
        try:
            tree = ast.parse(src, f)
        except SyntaxError as why:
            raise AnalysisBroken(f"{f} does not parse: {why}")
        self.src[name] = src
        self.modfile[name] = f
        self.mods[name] = tree
        self.index(tree, name)
        return tree

    def load_source(self, name, src):
        tree = ast.parse(src)
        self.src[name] = src
        self.modfile[name] = f"<{name}>"
        self.mods[name] = tree
        self.index(tree, name)
        return tree

    def index(self, tree, mod):
        """Give every function a FnInfo with its scoping facts."""

        def walk(node, qual, cls, outer):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    nm = getattr(ch, "name", "<lambda>")
                    fi = FnInfo(len(self.fns), ch, mod, f"{qual}.{nm}", cls)
                    fi.outer = outer
                    self.fns[fi.fid] = fi
                    self.fn_by_node[id(ch)] = fi
                    self.scope(fi)
                    # decorators / defaults belong to the outer scope
                    walk(ch, f"{qual}.{nm}", cls if not isinstance(ch, ast.Lambda) else cls, fi)
                elif isinstance(ch, ast.ClassDef):
                    walk(ch, f"{qual}.{ch.name}", f"{qual}.{ch.name}", outer)
                else:
                    walk(ch, qual, cls, outer)

        walk(tree, mod, None, None)
        for n in ast.walk(tree):
            if isinstance(n, ast.Expr):
                n.value._unused = True
            elif isinstance(n, ast.If):
                self.mark_tested(n.test, n.body)
            elif isinstance(n, ast.IfExp):
                self.mark_tested(n.test, [n.body])
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(n, fld, None)
                if isinstance(b, list) and len(b) > 1:
                    self.mark_filled(b)
        # captured variables
        for fi in list(self.fns.values()):
            if fi.mod != mod:
                continue
            free = self.free_names(fi)
            o = fi.outer
            while o is not None:
                hit = free & o.locals
                o.captured |= hit
                free -= hit
                o = o.outer

    def mark_filled(self, block):
        """`if K not in D: D[K] = ...` (or leave), then D[K] later in the same block."""
        for i, st in enumerate(block):
            if not (isinstance(st, ast.If) and not st.orelse and isinstance(st.test, ast.Compare)
                    and len(st.test.ops) == 1 and isinstance(st.test.ops[0], ast.NotIn)):
                continue
            k, d = ast.dump(st.test.left), ast.dump(st.test.comparators[0])
            fills = isinstance(st.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) or any(
                isinstance(x, ast.Assign) and any(
                    isinstance(t, ast.Subscript) and ast.dump(t.value) == d and ast.dump(t.slice) == k
                    for t in x.targets) for x in st.body)
            if not fills:
                continue
            names = {x.id for x in ast.walk(st.test) if isinstance(x, ast.Name)}
            for later in block[i + 1:]:
                sub = list(ast.walk(later))
                if any(isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in names
                       for x in sub):
                    break
                for x in sub:
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and ast.dump(x.value) == d \
                            and ast.dump(x.slice) == k:
                        x._tested = True

    def mark_tested(self, test, body):
        """`if K in D: ... D[K]` with K an expression whose names the body leaves alone."""
        tests = test.values if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) else [test]
        for i, t in enumerate(tests):
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.In)) \
                    or isinstance(t.left, ast.Constant):
                continue
            k, d = ast.dump(t.left), ast.dump(t.comparators[0])
            names = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
            where = [x for b in body for x in ast.walk(b)] + [x for b in tests[i + 1:] for x in ast.walk(b)]
            if any(isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in names
                   for x in where):
                continue
            for x in where:
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and ast.dump(x.value) == d \
                        and ast.dump(x.slice) == k:
                    x._tested = True

    def scope(self, fi):
        node = fi.node
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            fi.locals.add(x.arg)
        if a.vararg:
            fi.locals.add(a.vararg.arg)
        if a.kwarg:
            fi.locals.add(a.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [node.body]

        def visit(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi.locals.add(n.name)
                for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    visit(d)
                return
            if isinstance(n, ast.ClassDef):
                fi.locals.add(n.name)
                return
            if isinstance(n, ast.Lambda):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    visit(d)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                fi.locals.add(n.id)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                fi.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    fi.locals.add((al.asname or al.name).split(".")[0])
            elif isinstance(n, ast.Global):
                fi.globals |= set(n.names)
            elif isinstance(n, ast.Nonlocal):
                fi.nonlocals |= set(n.names)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                fi.is_gen = True
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                fi.locals.add(n.name)
            elif isinstance(n, ast.MatchMapping) and n.rest:
                fi.locals.add(n.rest)
            for c in ast.iter_child_nodes(n):
                visit(c)

        for b in body:
            visit(b)
        fi.locals -= fi.globals
        fi.locals -= fi.nonlocals

    def free_names(self, fi):
        used = set()
        node = fi.node
        body = node.body if isinstance(node.body, list) else [node.body]
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name):
                    used.add(n.id)
        inner = set()
        return (used | fi.nonlocals) - fi.locals

    # ------------------------------------------------------------------ contexts
    def ctx_of(self, parent, site, tag=None):
        k = (parent, site, tag)
        c = self.ctxs.get(k)
        if c is None:
            c = self.ctxs[k] = len(self.ctxs) + 1
        return c

    def where(self, node):
        f = self.frame
        return f"{self.modfile.get(f.mod, f.mod)}:{getattr(node, 'lineno', '?')}"

    def qual(self):
        f = self.frame
        if f.fn is not None:
            return f.fn.qual
        return f.mod

    def stack(self):
        return [q for q in self.stackqual]

    # ------------------------------------------------------------------ allocation
    def alloc(self, st, node, obj, kind=""):
        addr = make_addr((getattr(node, "_sid", None) or self.sid(node), kind, self.frame.ctx, self.tag))
        if self.phase == "init":
            addr = addr + ("i",)
        rec = REC[0]
        fresh = rec is not None and addr in rec.alloc
        if rec is not None and addr not in rec.touch:
            rec.alloc.add(addr)
        if addr in st.heap:
            if st.references(addr):
                self.age(st, addr, rec, fresh)
            st.heap.pop(addr, None)
        st.heap[addr] = obj
        return R(addr)

    def age(self, st, addr, rec, fresh):
        """Move a live object aside: its address is about to be allocated again."""
        old = addr + ("old",)
        if rec is not None:
            if not fresh or (old in st.heap and old not in rec.alloc):
                rec.ext.add(addr)
            else:
                rec.alloc.add(old)
        o = st.heap[addr]
        if old in st.heap:
            self_many = st.heap[old].join(o)
        else:
            self_many = o
        # the renamed object may stand for several concrete ones
        st.rename(addr, old)
        o2 = self_many.subst(addr, old) if addr in self_many.refs() else self_many
        o2 = _with_many(o2, True)
        st.heap[old] = o2

    _sids = {}

    def sid(self, node):
        s = getattr(node, "_sid", None)
        if s is None:
            Engine._sids[0] = s = Engine._sids.get(0, 0) + 1
            try:
                node._sid = s
            except AttributeError:
                pass
        return s

    def new_list(self, st, node, exact=None, elem=EMPTY, lo=0, hi=None, unord=None, sure=True, kind="l"):
        return self.alloc(st, node, ListO(exact, norm(elem), lo, hi, unord, False, sure), kind)

    # ------------------------------------------------------------------ exceptions
    def exc_is(self, exc, typ):
        """Is exception class exc (name) a subclass of typ (name)?"""
        return typ in self.exc_mro(exc)

    def exc_mro(self, exc):
        if exc in self.classes:
            out = []
            for a in self.classes[exc].mro:
                if isinstance(a, Cls):
                    out.append(a.qual)
                elif isinstance(a, Ext):
                    out.extend(self.exc_mro(_strip_b(a.path)))
            return out
        b = getattr(builtins, exc, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            names = [c.__name__ for c in b.__mro__]
            return names + ["IOError", "EnvironmentError"] if "OSError" in names else names
        par = self.models.EXC_PARENTS.get(exc)
        if par:
            return [exc] + self.exc_mro(par)
        return [exc, "Exception", "BaseException", "?"]

    def raise_exc(self, st, exc, node, desc, weak=False, value=None, at=None):
        """exc (class name) may be raised here from state st. at: where, when a remembered call raises it."""
        self.reached_raise(exc, node, desc)
        for c in reversed(self.catchers):
            for i, types in enumerate(c.types):
                if types is None:
                    hit = True
                else:
                    mro = self.exc_mro(exc)
                    hit = any(t in mro for t in types)
                if hit:
                    s = st.fork()
                    # unwind
                    if len(s.up) > c.depth:
                        s.locals = dict(s.up[c.depth])
                        s.up = s.up[: c.depth]
                    val = value if value is not None else V(EI("exc", exc))
                    c.caught.append((i, s, exc, val, weak))
                    if types is None:
                        q, w, k = at or (self.qual(), self.where(node), list(self.stackqual))
                        c.reasons.append((exc, val, weak, q, w, desc, k))
                    return
        self.escape(st, exc, node, desc, weak, at)

    def reached_raise(self, exc, node, desc):
        pass

    def escape(self, st, exc, node, desc, weak, at=None):
        key = (at[0] if at else self.qual(), exc, desc)
        where = at[1] if at else self.where(node)
        stack = list(self.stackqual)
        if at:
            stack = stack[:-1] + at[2][len(at[2]) - _tail(at[2], stack):]
        if self.phase == "init":
            key = key + ("init",)
        if weak:
            self.undecided.setdefault(key, (where, stack))
            return
        cur = self.alarms.get(key)
        if cur is None or len(cur[1]) > len(stack):
            self.alarms[key] = (where, stack)

    def unsup(self, node, why):
        k = (self.qual() if self.frame else "?", why)
        self.unsupported.setdefault(k, getattr(node, "lineno", 0))

    # ------------------------------------------------------------------ merging
    def skey(self, st, heap=True):
        items = []
        for n, v in st.locals.items():
            if n[0] == "$":
                continue
            s = sig(st, v)
            if len(v) == 1:
                (a,) = v
                if a.__class__ is R:
                    o = st.get(a.addr)
                    if o.__class__ is ListO:
                        s = s * 4 + (1 if o.hi == 0 else 2 if o.lo > 0 else 3) + 1000
                    elif heap and n == "self" and o.__class__ is Obj and len(o.attrs) < 40:
                        s = (s,) + tuple(sorted((k, sig(st, w), m) for k, (w, m) in o.attrs.items()))
                elif a.__class__ in (EnumM, Fn, Ext, Cls) or (a.__class__ is C and a.t == "str" and len(a.v) < 24):
                    s = (s, a)
            items.append((n, s))
        items.sort(key=lambda x: x[0])
        return tuple(items)

    def merge(self, states, limit=None):
        limit = limit or self.path_limit
        if len(states) <= 1:
            return states
        # drop duplicates cheaply
        if len(states) <= limit:
            out = []
            for s in states:
                for i, t in enumerate(out):
                    if same_state(s, t):
                        break
                else:
                    out.append(s)
            return out
        for heap in (True, False):
            groups = {}
            for s in states:
                k = self.skey(s, heap)
                groups.setdefault(k, []).append(s)
            out = []
            for g in groups.values():
                a = g[0]
                for b in g[1:]:
                    a = join_states(a, b)
                out.append(a)
            if len(out) <= limit:
                return out
            states = out
        a = states[0]
        for b in states[1:]:
            a = join_states(a, b)
        return [a]

    def merge_vals(self, pairs, limit=RET_LIMIT):
        """Merge (state, value) results."""
        if len(pairs) <= 1:
            return pairs
        if len(pairs) <= limit:
            out = []
            for s, v in pairs:
                for i, (t, w) in enumerate(out):
                    if v == w and same_state(s, t):
                        break
                else:
                    out.append((s, v))
            if len(out) <= 3:
                return out
            pairs = out
        groups = {}
        for s, v in pairs:
            groups.setdefault((_vsig(s, v)), []).append((s, v))
        out = []
        for g in groups.values():
            s, v = g[0]
            for t, w in g[1:]:
                s = join_states(s, t)
                v = join(v, w)
            out.append((s, v))
        if len(out) > limit:
            s, v = out[0]
            for t, w in out[1:]:
                s = join_states(s, t)
                v = join(v, w)
            out = [(s, v)]
        return out

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, states):
        for stmt in stmts:
            if not states:
                return states
            out = []
            m = getattr(self, "ex_" + stmt.__class__.__name__, None)
            for st in states:
                self.steps += 1
                if m is None:
                    self.unsup(stmt, "statement " + stmt.__class__.__name__)
                    out.append(st)
                else:
                    out.extend(m(stmt, st))
            if self.steps > self.max_steps:
                raise AnalysisBroken("step budget exhausted")
            if len(out) > 1 and self.frame.mod[0] == "$":
                states = self.merge(out, 1)
                if len(states) > 1:
                    a = states[0]
                    for b in states[1:]:
                        a = join_states(a, b)
                    states = [a]
            else:
                states = self.merge(out) if len(out) > 1 else out
        return states

    def ex_Expr(self, node, st):
        return [s for s, _ in self.ev(node.value, st)]

    def ex_Pass(self, node, st):
        return [st]

    def ex_Global(self, node, st):
        return [st]

    ex_Nonlocal = ex_Global

    def ex_Import(self, node, st):
        for al in node.names:
            st = self.import_module(al.name, st, node)
            if al.asname:
                st = self.store_name(al.asname, V(self.mod_atom(al.name)), st, node)
            else:
                top = al.name.split(".")[0]
                st = self.store_name(top, V(self.mod_atom(top)), st, node)
        return [st]

    def mod_atom(self, name):
        if self.find_module(name):
            return Mod(name)
        return Ext(name)

    def ex_ImportFrom(self, node, st):
        mod = node.module or ""
        if node.level:
            cur = self.frame.mod
            isinit = self.modfile.get(cur, "").endswith("__init__.py")
            parts = cur.split(".")
            up = node.level - (1 if isinit else 0)
            parts = parts[: len(parts) - up] if up else parts
            mod = ".".join(parts + ([mod] if mod else []))
        st = self.import_module(mod, st, node)
        for al in node.names:
            if al.name == "*":
                if mod in self.mods:
                    o = st.get(("mod", mod))
                    allv = None
                    if "__all__" in o.attrs:
                        allv = self.const_list(st, o.attrs["__all__"][0])
                    names = allv if allv is not None else [n for n in o.attrs if not n.startswith("_")]
                    for n in names:
                        if n not in o.attrs and self.find_module(mod + "." + n):
                            st = self.import_module(mod + "." + n, st, node)
                            st = self.store_name(n, V(Mod(mod + "." + n)), st, node)
                        elif n in o.attrs:
                            st = self.store_name(n, o.attrs[n][0], st, node)
                continue
            v = None
            if mod in self.mods:
                o = st.get(("mod", mod))
                if o is None:
                    raise AnalysisBroken(f"state lost module {mod} (importing from {self.frame.mod})")
                if al.name in o.attrs:
                    v = o.attrs[al.name][0]
                elif self.find_module(mod + "." + al.name):
                    st = self.import_module(mod + "." + al.name, st, node)
                    v = V(Mod(mod + "." + al.name))
                elif mod in self.stub_mods:
                    v = V(Ext(mod + "." + al.name))
                else:
                    self.raise_exc(st, "ImportError", node, f"import {mod}.{al.name}")
                    v = VTOP
            else:
                v = self.ext_attr(Ext(mod), al.name, node)
            st = self.store_name(al.asname or al.name, v, st, node)
        return [st]

    def const_list(self, st, v):
        if len(v) == 1:
            (a,) = v
            if isinstance(a, R):
                o = st.get(a.addr)
                if isinstance(o, ListO) and o.exact is not None:
                    out = []
                    for e in o.exact:
                        if len(e) == 1 and isinstance(next(iter(e)), C):
                            out.append(next(iter(e)).v)
                        else:
                            return None
                    return out
        return None

    def import_module(self, name, st, node=None):
        """Run the module body of name (and its parents) once; returns the state."""
        parts = name.split(".")
        for i in range(1, len(parts) + 1):
            n = ".".join(parts[:i])
            f = self.find_module(n)
            if f is None:
                continue
            if n in self.imported:
                continue
            self.imported.add(n)
            self.load(n)
            st = self.run_module(n, st)
            if i > 1:
                par = ".".join(parts[: i - 1])
                if par in self.mods:
                    o = st.get(("mod", par))
                    if o is not None:
                        self.put(st, ("mod", par), o.set(parts[i - 1], V(Mod(n))))
        return st

    def run_module(self, n, st):
        tree = self.mods[n]
        st = st.fork()
        st.put(("mod", n), Obj(None, {
            "__name__": (Cv(n), False),
            "__file__": (V(S(ml=1)), False),
            "__doc__": (V(NONE), False),
            "__path__": (V(EI("pkgpath", n)), False),
        }))
        saved = (self.frame, st.locals, st.up, self.catchers, self.loops)
        self.frame = Frame(None, n, "module", self.ctx_of(0, n), 0, ns=("mod", n))
        self.catchers = []
        self.loops = []
        st.locals = {}
        st.up = ()
        self.stackqual.append(n)
        out = self.exec_block(tree.body, [st])
        self.stackqual.pop()
        (self.frame, loc, up, self.catchers, self.loops) = saved
        if not out:
            raise AnalysisBroken(f"module {n} does not finish loading in the analysis")
        s = out[0]
        for t in out[1:]:
            s = join_states(s, t)
        s.locals = loc
        s.up = up
        return s

    def put(self, st, addr, obj):
        if self.base is not None and addr in self.base and self.phase != "init":
            self.note_global_write(addr, st)
        st.put(addr, obj)

    def note_global_write(self, addr, st):
        k = (self.qual(), str(addr[:2]) if addr and addr[0] in ("mod", "cls") else str(addr))
        self.global_writes.setdefault(k, (addr, list(self.stackqual)))

    def ex_FunctionDef(self, node, st):
        out = []
        for s, v in self.make_fn(node, st):
            for d in reversed(node.decorator_list):
                res = []
                for s2, dv in self.ev(d, s):
                    res.extend(self.decorate(s2, dv, v, d, node))
                if len(res) != 1:
                    s = res[0][0] if res else s
                    v = joinall([x for _, x in res]) if res else VTOP
                else:
                    s, v = res[0]
            s = self.store_name(node.name, v, s, node)
            out.append(s)
        return out

    ex_AsyncFunctionDef = ex_FunctionDef

    def decorate(self, st, dv, v, dnode, fnode):
        if len(dv) == 1:
            (d,) = dv
            (f,) = v if len(v) == 1 else (TOP,)
            if isinstance(d, Ext):
                p = d.path
                if p in ("builtins.property", "functools.cached_property", "abc.abstractproperty"):
                    return [(st, V(Prop(f)))]
                if p == "builtins.staticmethod":
                    return [(st, V(SM(f)))]
                if p == "builtins.classmethod":
                    return [(st, V(CM(f)))]
                if p in ("abc.abstractmethod", "typing.runtime_checkable", "typing.overload",
                         "typing.final", "typing_extensions.override", "typing.override",
                         "typing.no_type_check", "functools.lru_cache", "functools.cache",
                         "typing_extensions.final", "functools.total_ordering"):
                    return [(st, v)]
                if p == "contextlib.contextmanager":
                    return [(st, V(EI("ctxmgr", f)))]
                if p in ("dataclasses.dataclass",):
                    for a in v:
                        if isinstance(a, Cls):
                            self.classes[a.qual].dataclass = True
                    return [(st, v)]
            if isinstance(d, XM) and isinstance(d.recv, Prop) and d.name == "setter":
                return [(st, V(Prop(d.recv.fget, f)))]
            if isinstance(d, EI) and d.typ == "decorator":
                if d.payload == "dataclass":
                    for a in v:
                        if isinstance(a, Cls):
                            self.classes[a.qual].dataclass = True
                    return [(st, v)]
                if d.payload == "wraps":
                    return [(st, v)]
                return [(st, v)]
        return self.call(st, dv, [v], {}, dnode)

    def make_fn(self, node, st):
        fi = self.fn_by_node[id(node)]
        a = node.args
        res = []
        for s, dvals in self.ev_many(a.defaults, st):
            for s2, kvals in self.ev_many([k for k in a.kw_defaults if k is not None], s):
                kn = [x.arg for x, k in zip(a.kwonlyargs, a.kw_defaults) if k is not None]
                env = None
                if self.frame.kind == "fn":
                    env = s2.locals.get("$env")
                    env = next(iter(env)).addr if env else self.frame.env
                elif self.frame.env is not None:
                    env = self.frame.env
                res.append((s2, V(Fn(fi.fid, env, dvals, list(zip(kn, kvals))))))
        return res

    def ex_ClassDef(self, node, st):
        if self.frame.kind == "module":
            qual = f"{self.frame.mod}.{node.name}"
        else:
            qual = f"{self.qual()}.{node.name}"
        if self.frame.kind == "class":
            qual = f"{self.frame.cls}.{node.name}"
        ci = ClassInfo(qual, node.name, self.frame.mod, node)
        out = []
        for s, bases in self.ev_many(node.bases, st):
            s, ok = self.build_class(ci, bases, node, s)
            v = V(Cls(qual))
            for d in reversed(node.decorator_list):
                res = []
                for s2, dv in self.ev(d, s):
                    res.extend(self.decorate(s2, dv, v, d, node))
                if res:
                    s, v = res[0]
            s = self.store_name(node.name, v, s, node)
            out.append(s)
            break
        return out

    def build_class(self, ci, bases, node, st):
        qual = ci.qual
        for b in bases:
            a = next(iter(b)) if len(b) == 1 else TOP
            ci.orig_bases.append(a)
            if isinstance(a, GA):
                a = a.origin
            ci.bases.append(a)
        self.classes[qual] = ci
        ci.mro = self.linearize(ci)
        for a in ci.mro:
            if isinstance(a, Ext) and a.path in ("enum.Enum", "enum.IntEnum", "enum.StrEnum", "enum.Flag", "enum.IntFlag"):
                ci.enum = True
            if isinstance(a, Ext) and a.path in ("typing.TypedDict", "typing_extensions.TypedDict"):
                ci.typeddict = True
            if isinstance(a, Ext) and a.path in ("typing.NamedTuple",):
                ci.dataclass = True
        st = st.fork()
        st.put(ci.addr, Obj("type", {
            "__module__": (Cv(ci.mod), False),
            "__qualname__": (Cv(ci.name), False),
            "__name__": (Cv(ci.name), False),
            "__doc__": (Cv(ast.get_docstring(node)), False),
            "__bases__": (VTOP, False),
        }))
        saved = (self.frame, st.locals)
        fr = Frame(self.frame.fn, self.frame.mod, "class", self.frame.ctx, self.frame.depth,
                   cls=qual, env=self.frame.env, ns=ci.addr)
        if saved[0].kind == "fn":
            e = st.locals.get("$env")
            if e:
                fr.env = next(iter(e)).addr
        self.frame = fr
        outs = self.exec_block(node.body, [st])
        (self.frame, _) = saved
        s = outs[0] if outs else st
        for t in outs[1:]:
            s = join_states(s, t)
        # enum members
        if ci.enum:
            o = s.get(ci.addr)
            attrs = dict(o.attrs)
            n = 0
            for nm, (v, m) in list(attrs.items()):
                if nm.startswith("__") or nm.startswith("_"):
                    continue
                a = next(iter(v)) if len(v) == 1 else None
                if isinstance(a, (Fn, Prop, SM, CM)):
                    continue
                n += 1
                if isinstance(a, EI) and a.typ == "enum.auto":
                    v = Cv(n)
                attrs[nm] = (V(EnumM(qual, nm, v)), m)
            s.put(ci.addr, Obj("type", attrs))
        # __init_subclass__ of the bases
        kw = {}
        for k in node.keywords:
            if k.arg and k.arg != "metaclass":
                r = self.ev(k.value, s)
                s, kv = r[0]
                kw[k.arg] = (kv, False)
        for a in ci.mro[1:]:
            if isinstance(a, Cls):
                o = s.get(("cls", a.qual))
                if o and "__init_subclass__" in o.attrs:
                    f = next(iter(o.attrs["__init_subclass__"][0]))
                    if isinstance(f, CM):
                        f = f.fn
                    res = self.call_atom(s, BM(Cls(qual), f), [], kw, node)
                    if res:
                        s = res[0][0]
                        for t, _ in res[1:]:
                            s = join_states(s, t)
                    break
        return s, True

    def orig_bases_of(self, ci):
        """The bases as written of the nearest class whose bases have parameters, as Python finds them."""
        for a in ci.mro:
            if isinstance(a, Cls) and any(isinstance(x, GA) for x in self.classes[a.qual].orig_bases):
                return self.classes[a.qual].orig_bases
        return []

    def linearize(self, ci):
        seqs = []
        for b in ci.bases:
            if isinstance(b, Cls):
                seqs.append(list(self.classes[b.qual].mro))
            else:
                seqs.append([b])
        seqs.append(list(ci.bases))
        res = [Cls(ci.qual)]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            res.append(cand)
            seqs = [[x for x in s if x != cand] for s in seqs]
            seqs = [s for s in seqs if s]
        return res

    def ex_Return(self, node, st):
        if node.value is None:
            self.frame.returns.append((st, VNONE))
            return []
        for s, v in self.ev(node.value, st):
            self.frame.returns.append((s, v))
        return []

    def ex_Assign(self, node, st):
        out = []
        for s, v in self.ev(node.value, st, hint=node.targets[0]):
            ss = [s]
            for t in node.targets:
                nxt = []
                for x in ss:
                    nxt.extend(self.assign(t, v, x, node))
                ss = nxt
            out.extend(ss)
        return out

    def ex_AnnAssign(self, node, st):
        if self.frame.kind == "class" and isinstance(node.target, ast.Name):
            self.classes[self.frame.cls].annots.append((node.target.id, node.value is not None))
        if node.value is None:
            return [st]
        out = []
        for s, v in self.ev(node.value, st, hint=node.target):
            out.extend(self.assign(node.target, v, s, node))
        return out

    def ex_AugAssign(self, node, st):
        out = []
        t = node.target
        load = _as_load(t)
        for s, cur in self.ev(load, st):
            for s2, v in self.ev(node.value, s):
                for s3, r in self.binop(node.op, cur, v, s2, node, inplace=True):
                    out.extend(self.assign(t, r, s3, node, aug=True))
        return out

    def ex_Delete(self, node, st):
        sts = [st]
        for t in node.targets:
            nxt = []
            for s in sts:
                if isinstance(t, ast.Name):
                    s.locals.pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, b in self.ev(t.value, s):
                        for s3, k in self.ev_index(t.slice, s2):
                            nxt.extend(self.del_item(s3, b, k, node))
                elif isinstance(t, ast.Attribute):
                    for s2, b in self.ev(t.value, s):
                        for a in b:
                            if isinstance(a, (R, W)):
                                o = s2.get(a.addr)
                                if isinstance(o, Obj):
                                    self.put(s2, a.addr, o.unset(t.attr))
                        nxt.append(s2)
                else:
                    nxt.append(s)
            sts = nxt
        return sts

    def del_item(self, st, b, k, node):
        out = [st]
        for a in b:
            if isinstance(a, R):
                o = st.get(a.addr)
                if isinstance(o, DictO):
                    self.dict_missing(st, o, k, node, "del")
                    ent = dict(o.ent)
                    for ka in k:
                        if const_key(ka):
                            ent.pop(ka, None)
                        else:
                            for e in list(ent):
                                ent[e] = (ent[e][0], True)
                    self.put(st, a.addr, o.but(ent=ent))
                elif isinstance(o, ListO):
                    self.put(st, a.addr, ListO(None, o.elem, max(0, o.lo - 1), o.hi, o.unord, o.many, False))
        return out

    def ex_If(self, node, st):
        ts, fs = self.cond(node.test, st)
        out = self.exec_block(node.body, self.merge(ts)) if ts else []
        if node.orelse:
            out = out + (self.exec_block(node.orelse, self.merge(fs)) if fs else [])
        else:
            out = out + fs
        return out

    def ex_Raise(self, node, st):
        if node.exc is None:
            exc = self.frame.exc[-1] if self.frame.exc else None
            if exc:
                self.raise_exc(st, exc[0], node, "re-raise of " + exc[0], weak=exc[2], value=exc[1])
            return []
        for s, v in self.ev(node.exc, st):
            for a in v:
                name, val = self.exc_name(s, a)
                if name is None:
                    name = "Exception"
                self.raise_exc(s, name, node, f"raise {name}", value=val)
        return []

    def exc_name(self, st, a):
        """(class name, instance value) of an exception atom."""
        if isinstance(a, Cls):
            return a.qual, V(EI("exc", a.qual))
        if isinstance(a, Ext):
            return _strip_b(a.path), V(EI("exc", _strip_b(a.path)))
        if isinstance(a, EI) and a.typ == "exc":
            return exc_class(a.payload), V(a)
        if isinstance(a, R):
            o = st.get(a.addr)
            if isinstance(o, Obj) and o.cls:
                return o.cls, V(a)
        return None, VTOP

    def ex_Assert(self, node, st):
        ts, fs = self.cond(node.test, st)
        for s in fs:
            self.raise_exc(s, "AssertionError", node, "assert")
        return ts

    def exc_types(self, st, node):
        """Exception names a handler type expression stands for; None = everything."""
        if node is None:
            return None
        r = self.ev(node, st)
        names = []
        for _, v in r:
            for a in v:
                if isinstance(a, T):
                    items = [x for e in a.elems for x in e]
                else:
                    items = [a]
                for x in items:
                    n, _ = self.exc_name(st, x)
                    if n is None:
                        n = "Exception"  # unknown class: assume it catches
                    names.append(n)
        return names

    def ex_Try(self, node, st):
        types = [self.exc_types(st, h.type) for h in node.handlers]
        c = Catcher(types, len(st.up))
        self.catchers.append(c)
        nret = len(self.frame.returns)
        out = self.exec_block(node.body, [st])
        self.catchers.pop()
        if node.orelse and out:
            out = self.exec_block(node.orelse, out)
        # handlers
        groups = {}
        for i, s, exc, val, weak in c.caught:
            groups.setdefault(i, []).append((s, exc, val, weak))
        for i, h in enumerate(node.handlers):
            g = groups.get(i)
            if not g:
                continue
            # one state per (exception class, path signature)
            byexc = {}
            for s, exc, val, weak in g:
                byexc.setdefault(exc, []).append((s, val, weak))
            for exc, lst in byexc.items():
                ss = self.merge([s for s, _, _ in lst], 4)
                val = joinall([v for _, v, _ in lst])
                weak = all(w for _, _, w in lst)
                for s in ss:
                    s = s.fork()
                    if h.name:
                        s = self.store_name(h.name, val, s, h)
                    self.frame.exc.append((exc, val, weak))
                    hs = self.exec_block(h.body, [s])
                    self.frame.exc.pop()
                    out = out + hs
        if node.finalbody:
            out = self.exec_block(node.finalbody, self.merge(out)) if out else []
            rets = self.frame.returns[nret:]
            if rets:
                del self.frame.returns[nret:]
                for s, v in rets:
                    s.locals["$fin"] = v
                    for s2 in self.exec_block(node.finalbody, [s]):
                        self.frame.returns.append((s2, s2.locals.get("$fin", v)))
        return out

    def ex_With(self, node, st):
        sts = [st]
        for item in node.items:
            nxt = []
            for s in sts:
                for s2, v in self.ev(item.context_expr, s):
                    for s3, ev in self.enter(s2, v, node):
                        if item.optional_vars is not None:
                            nxt.extend(self.assign(item.optional_vars, ev, s3, node))
                        else:
                            nxt.append(s3)
            sts = nxt
        sup = [i for i in node.items]
        # contextlib.suppress
        types = []
        for s, v in (self.ev(node.items[0].context_expr, st.fork()) if _is_suppress(node) else []):
            for a in v:
                if isinstance(a, EI) and a.typ == "contextlib.suppress":
                    types.append(list(a.payload or ()))
        if types:
            c = Catcher([sum(types, [])], len(st.up))
            self.catchers.append(c)
            out = self.exec_block(node.body, sts)
            self.catchers.pop()
            return out + [s for _, s, _, _, _ in c.caught]
        return self.exec_block(node.body, sts)

    def enter(self, st, v, node):
        out = []
        for a in v:
            if isinstance(a, EI) and a.typ == "ctxval":
                out.append((st, a.payload))
            elif isinstance(a, R):
                o = st.get(a.addr)
                if isinstance(o, Obj) and o.cls:
                    f = self.class_lookup(st, o.cls, "__enter__")
                    if f is not None:
                        out.extend(self.call(st, V(BM(a, next(iter(f)))), [], {}, node))
                        continue
                out.append((st, V(a)))
            else:
                out.append((st, V(a)))
        return out

    # ---- loops
    def ex_While(self, node, st):
        if not self.scenario or node.orelse:
            return self.loop(node, [st], None, None)
        # turn by turn, as long as it is certain whether there is another one
        out, cur = [], [st]
        base_ctx = self.frame.ctx
        for nth in range(16):
            turn, sure = [], True
            for s in cur:
                ts, fs = self.cond(node.test, s.fork())
                if ts and fs:
                    sure = False
                    break
                turn.append((ts, fs))
            if not sure or len(cur) > 3:
                break
            nxt = []
            self.loops.append(([], []))
            self.frame.ctx = self.ctx_of(base_ctx, ("nth", nth))
            for ts, fs in turn:
                out.extend(fs)
                nxt.extend(self.exec_block(node.body, ts) if ts else [])
            self.frame.ctx = base_ctx
            b, c = self.loops.pop()
            out.extend(b)
            cur = self.merge(nxt + c, 6)
            if not cur:
                break
        if cur:
            out.extend(self.loop(node, cur, None, None))
        return self.merge(out)

    def ex_For(self, node, st):
        out = []
        for s, itv in self.ev(node.iter, st):
            out.extend(self.for_over(node, s, itv))
        return out

    ex_AsyncFor = ex_For

    def for_over(self, node, st, itv):
        out = []
        self.check_order(st, itv, node, "for", node)
        cases = self.iter_cases(st, itv, node.iter)
        for s, kind, data in cases:
            if kind == "exact" and len(data) <= (100000 if self.phase == "init" else 10000 if self.scenario else 60):
                cur = [s]
                brk = []
                base_ctx = self.frame.ctx
                for nth, ev in enumerate(data):
                    nxt = []
                    if self.scenario and 1 < len(data) < 12:
                        self.frame.ctx = self.ctx_of(base_ctx, ("nth", nth))
                    self.loops.append(([], []))
                    for x in self.merge(cur, 6):
                        for sb in self.split_bind(node.target, ev, x, node):
                            nxt.extend(self.exec_block(node.body, [sb]))
                    b, c = self.loops.pop()
                    self.frame.ctx = base_ctx
                    brk.extend(b)
                    cur = nxt + c
                    if not cur:
                        break
                cur = self.merge(cur, 6)
                if node.orelse and cur:
                    cur = self.exec_block(node.orelse, cur)
                out.extend(cur + brk)
            else:
                if kind == "exact":
                    elem, lo, hi, addr = joinall(data), len(data), len(data), None
                else:
                    elem, lo, hi, addr = data
                if addr in self.seq_of and self.seq_of[addr][0] == elem:
                    out.extend(self.loop_seq(node, s, *self.seq_of[addr][1:]))
                    continue
                out.extend(self.loop(node, [s], elem, lo, addr))
        return self.merge(out)

    def loop_seq(self, node, st, seq, rest):
        """A loop over a table's entries, in order, with any number of other entries anywhere between them."""
        cur, brk = [st], []

        def others(states):
            if not rest or not states:
                return states
            return self.loop(node, states, rest, 0)

        if node.orelse:
            self.unsup(node, "else of a loop over a table")
        cur = others(cur)
        for v, maybe in seq:
            nxt = [x.fork() for x in cur] if maybe else []
            self.loops.append(([], []))
            for x in self.merge(cur, 6):
                for sb in self.split_bind(node.target, v, x, node):
                    nxt.extend(self.exec_block(node.body, [sb]))
            b, c = self.loops.pop()
            brk.extend(b)
            cur = others(self.merge(nxt + c, 6))
            if not cur:
                break
        return cur + brk

    def split_bind(self, target, v, st, node):
        """Bind a loop target, one state per distinguishing atom."""
        groups = self.split_value(v)
        if len(groups) <= 1:
            return self.assign(target, v, st, node)
        out = []
        for g in groups:
            out.extend(self.assign(target, g, st.fork(), node))
        return out

    def split_value(self, v):
        if len(v) <= 1:
            return [v]
        groups = []
        rest = []
        for a in v:
            if isinstance(a, (R, Cls, T, EnumM)):
                groups.append(V(a))
            elif isinstance(a, C) and a.t in ("str", "NoneType"):
                groups.append(V(a))
            elif isinstance(a, (S, B)) and (a.ci is not None or a.other):
                groups.append(V(a))
            else:
                rest.append(a)
        if len(groups) > 400:
            return [v]
        if rest:
            groups.append(frozenset(rest))
        return groups

    def elem_tag(self, g):
        """A loop partition tag for allocation contexts."""
        if len(g) != 1:
            return None
        (a,) = g
        if isinstance(a, T):
            for x in a.elems:
                if len(x) == 1 and next(iter(x)).__class__ is Cls:
                    return ("e", next(iter(x)))
        if isinstance(a, T) and a.elems and len(a.elems[0]) == 1:
            (b,) = a.elems[0]
            if isinstance(b, (S, B)) and (b.ci is not None or b.other):
                if b.sym and b.sym[0] == "pad":
                    return ("e", b.sym[1][0])
                return ("e", b.ci or "*other*")
            if isinstance(b, C) and b.t == "str":
                return ("e", b.v)
            if isinstance(b, (Cls, EnumM)):
                return ("e", b)
        if isinstance(a, (Cls, EnumM)):
            return ("e", a)
        if isinstance(a, (S, B)) and (a.ci is not None or a.other):
            return ("e", a.ci or "*other*")
        if isinstance(a, R):
            return ("r", a.addr)
        if isinstance(a, T):
            # (number, element) and the like
            for x in a.elems:
                if len(x) == 1 and next(iter(x)).__class__ is T:
                    t = self.elem_tag(x)
                    if t is not None:
                        return t
            for x in a.elems[1:]:
                if len(x) == 1 and isinstance(next(iter(x)), (S, B, R, EnumM)):
                    t = self.elem_tag(x)
                    if t is not None:
                        return t
        return None

    def loop(self, node, states, elem, lo, addr=None):
        """Fixpoint of a loop. elem is None for while loops."""
        head = states[0]
        for s in states[1:]:
            head = join_states(head, s)
        brk_all = []
        is_for = elem is not None
        groups = self.split_value(elem) if is_for else None
        entry = head.fork()
        exits_zero = []
        if is_for and lo is not None and lo == 0 or (is_for and lo is None):
            exits_zero = [head.fork()]
        after = None
        normal_exits = []
        base_ctx = self.frame.ctx
        once = frozenset()
        if is_for and addr in self.once_of and self.once_of[addr][0] == elem:
            once = self.once_of[addr][1]
        visited = {}
        changed = {}  # group index -> addresses its visits change
        for it in range(LOOP_ITERS):
            rets_mark = len(self.frame.returns)
            brk = []
            ends = []
            normal_exits = []
            if is_for:
                # elements may have been added by the body (aliasing): keep the element set we saw
                cur = head
                grown = False
                for gi, g in enumerate(groups):
                    src = cur
                    if once:
                        src = cur.fork()
                        if self.once_addr(g, once) is not None:
                            # this element comes once: what only its own visit changes is as before the loop
                            self.only_mine(changed, gi, entry, [src], None)
                    tag = self.elem_tag(g) if len(groups) > 1 else None
                    if tag is not None:
                        self.frame.ctx = self.ctx_of(base_ctx, ("tag", tag))
                    self.loops.append(([], []))
                    gb = []
                    for sb in self.assign(node.target, g, src.fork(), node):
                        gb.extend(self.exec_block(node.body, [sb]))
                    b, c = self.loops.pop()
                    self.frame.ctx = base_ctx
                    brk.extend(self.merge(b, 4))
                    if once:
                        m = changed.setdefault(gi, set())
                        n0 = len(m)
                        for e in gb + c + b:
                            for x, o in e.heap.items():
                                p = src.heap.get(x)
                                if p is o or x in m or x not in entry.heap or (p is not None and p.eq(o)):
                                    continue
                                if o.__class__ is DictO and p.__class__ is DictO and o.dflt == p.dflt and not o.many:
                                    if o.okey != p.okey or o.oval != p.oval:
                                        m.add((DictO, x, None))
                                    for k in set(o.ent) | set(p.ent):
                                        if o.ent.get(k) != p.ent.get(k):
                                            m.add((DictO, x, k))
                                else:
                                    m.add(x)
                        grown = grown or len(m) != n0
                    gends = self.merge(gb + c, 2)
                    if once and self.once_addr(g, once) is not None:
                        visited[gi] = gends
                    ends.extend(gends)
                    for e in gends:
                        cur = join_states(cur, e, widen=it >= 3)
                    if len(brk) > 24:
                        brk = self.merge(brk, 8)
            else:
                ts, fs = self.cond(node.test, head.fork())
                normal_exits = fs
                self.loops.append(([], []))
                gb = self.exec_block(node.body, self.merge(ts)) if ts else []
                b, c = self.loops.pop()
                brk.extend(b)
                ends.extend(gb + c)
            new = head
            if is_for:
                new = cur
            else:
                for e in ends:
                    new = join_states(new, e, widen=it >= 3)
            if ends:
                a = ends[0]
                for e in ends[1:]:
                    a = join_states(a, e)
                after = a if after is None else join_states(after, a)
            brk_all = brk
            if same_state(new, head) and not (is_for and once and grown):
                break
            # results of this round are superseded by the next one
            del self.frame.returns[rets_mark:]
            head = new
        else:
            self.unsup(node, "loop did not converge")
        if is_for:
            outs = list(exits_zero)
            if after is not None:
                outs.append(after)
            for gi, gends in visited.items():
                # the element, where present, has been visited: what only its visit changes is as after it
                if gends:
                    self.learn_implied(changed, gi, entry, addr, self.once_addr(groups[gi], once))
                    self.only_mine(changed, gi, entry, outs, gends)
        else:
            outs = normal_exits
        if node.orelse and outs:
            outs = self.exec_block(node.orelse, outs)
        return self.merge(outs + brk_all)

    def ex_Break(self, node, st):
        self.loops[-1][0].append(st)
        return []

    def ex_Continue(self, node, st):
        self.loops[-1][1].append(st)
        return []

    def ex_Match(self, node, st):
        out = []
        for s, v in self.ev(node.subject, st):
            s.locals["$m%d" % self.sid(node)] = v
            subj = ast.Name(id="$m%d" % self.sid(node), ctx=ast.Load())
            if _is_path(node.subject):
                subj = node.subject
            cur = [s]
            for case in node.cases:
                nxt_false = []
                for x in cur:
                    ts, fs = self.match_pat(case.pattern, subj, x, node)
                    if case.guard is not None:
                        ts2 = []
                        for t in ts:
                            a, b = self.cond(case.guard, t)
                            ts2.extend(a)
                            fs = fs + b
                        ts = ts2
                    if ts:
                        out.extend(self.exec_block(case.body, self.merge(ts)))
                    nxt_false.extend(fs)
                cur = self.merge(nxt_false)
                if not cur:
                    break
            out.extend(cur)
        return out

    def match_pat(self, p, subj, st, node):
        if isinstance(p, ast.MatchValue):
            return self.cond(ast.copy_location(ast.Compare(subj, [ast.Eq()], [p.value]), node), st)
        if isinstance(p, ast.MatchSingleton):
            return self.cond(ast.copy_location(ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)]), node), st)
        if isinstance(p, ast.MatchOr):
            ts, cur = [], [st]
            for q in p.patterns:
                nf = []
                for x in cur:
                    a, b = self.match_pat(q, subj, x, node)
                    ts += a
                    nf += b
                cur = nf
            return ts, cur
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    for s, v in self.ev(subj, st):
                        st = self.store_name(p.name, v, s, node)
                return [st], []
            ts, fs = self.match_pat(p.pattern, subj, st, node)
            if p.name:
                ts2 = []
                for t in ts:
                    for s, v in self.ev(subj, t):
                        ts2.append(self.store_name(p.name, v, s, node))
                ts = ts2
            return ts, fs
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            call = ast.Call(ast.Name("isinstance", ast.Load()), [subj, p.cls], [])
            return self.cond(ast.copy_location(call, node), st)
        self.unsup(node, "match pattern " + p.__class__.__name__)
        t = st.fork()
        for n in ast.walk(p):
            if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                t = self.store_name(n.name, VTOP, t, node)
        return [t], [st]

    # ------------------------------------------------------------------ assignment
    def store_name(self, name, v, st, node):
        f = self.frame
        if f.kind in ("module", "class"):
            o = st.get(f.ns)
            self.put(st, f.ns, o.set(name, v))
            return st
        fn = f.fn
        if name in fn.globals:
            o = st.get(("mod", f.mod))
            self.put(st, ("mod", f.mod), o.set(name, v))
            return st
        if name in fn.captured and "$env" in st.locals:
            (e,) = st.locals["$env"]
            o = st.get(e.addr)
            st.put(e.addr, o.set(name, v))
            return st
        if name in fn.nonlocals:
            env = f.env
            while env is not None:
                o = st.get(env)
                if name in o.attrs:
                    st.put(env, o.set(name, v))
                    return st
                p = o.attrs.get("$parent")
                env = next(iter(p[0])).addr if p else None
        st.locals[name] = v
        return st

    def assign(self, t, v, st, node, aug=False):
        if isinstance(t, ast.Name):
            return [self.store_name(t.id, v, st, node)]
        if isinstance(t, ast.Attribute):
            out = []
            for s, b in self.ev(t.value, st):
                out.extend(self.set_attr(s, b, t.attr, v, node))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, b in self.ev(t.value, st):
                for s2, k in self.ev_index(t.slice, s):
                    out.extend(self.set_item(s2, b, k, v, node))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st, node)
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        self.unsup(node, "assignment target")
        return [st]

    def unpack(self, t, v, st, node):
        n = len(t.elts)
        star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
        outs = []
        groups = {}
        if n > 1:
            self.check_order(st, v, node, "unpack", node)
        for a in v:
            groups.setdefault(self.unpack_shape(st, a), []).append(a)
        forked = st
        first = True
        items = list(v)
        cols = None
        for a in items:
            got = self.unpack_atom(st, a, n, star, node, t)
            if got is None:
                continue
            if cols is None:
                cols = [[] for _ in range(n)]
            for i in range(n):
                cols[i].append(got[i])
        if cols is None:
            return []
        if len(items) > 1 and len(items) <= 6:
            # keep tuple atoms correlated
            for a in items:
                got = self.unpack_atom(st, a, n, star, node, t)
                if got is None:
                    continue
                ss = [st.fork()]
                for e, gv in zip(t.elts, got):
                    nx = []
                    for s in ss:
                        nx.extend(self.assign(e, gv, s, node))
                    ss = nx
                outs.extend(ss)
            return self.merge(outs, 6)
        ss = [st]
        for e, col in zip(t.elts, cols):
            nx = []
            gv = joinall(col)
            for s in ss:
                nx.extend(self.assign(e, gv, s, node))
            ss = nx
        return ss

    def unpack_shape(self, st, a):
        return a.__class__.__name__

    def unpack_atom(self, st, a, n, star, node, t):
        """List of n values for atom a, or None when it cannot be unpacked."""
        need = n - 1 if star is not None else n

        def bad(weak=False):
            self.raise_exc(st, "ValueError", node, f"unpack into {n}", weak=weak)

        if isinstance(a, T):
            k = len(a.elems)
            if star is None:
                if k != n:
                    bad()
                    return None
                return list(a.elems)
            if k < need:
                bad()
                return None
            pre = list(a.elems[:star])
            post = list(a.elems[k - (n - star - 1):]) if n - star - 1 else []
            mid = a.elems[star: k - (n - star - 1)]
            r = self.new_list(st, t, [*mid], kind="star")
            return pre + [V(r)] + post
        if isinstance(a, TN):
            if star is None:
                bad(weak=True)
            return [a.elem] * n
        if isinstance(a, (R, W)):
            o = st.get(a.addr)
            if isinstance(o, ListO):
                if o.exact is not None:
                    return self.unpack_atom(st, T(o.exact), n, star, node, t)
                lo, hi = o.lo, o.hi
                if star is None:
                    if hi is not None and hi < n or lo > n:
                        bad()
                        return None
                    if lo < n or hi is None or hi > n:
                        bad(weak=not o.sure)
                else:
                    if lo < need:
                        bad(weak=not o.sure)
                out = [o.elem] * n
                if star is not None:
                    out[star] = V(self.new_list(st, t, None, o.elem, 0, None, sure=False, kind="star"))
                return out
            if isinstance(o, DictO):
                return [o.allkeys()] * n
            if isinstance(o, SetO):
                bad(weak=True)
                return [o.elem] * n
            if isinstance(o, Obj):
                if o.cls in self.classes and self.classes[o.cls].dataclass:
                    return [VTOP] * n
            return [VTOP] * n
        if isinstance(a, (S, C)) and (isinstance(a, S) or a.t == "str"):
            if isinstance(a, C):
                if len(a.v) != n and star is None:
                    bad()
                    return None
                return [Cv(x) for x in a.v] if star is None else [VTOP] * n
            bad(weak=False)
            return [V(S(ml=1, taint=a.taint))] * n
        if isinstance(a, (I, F)) or (isinstance(a, C) and not isinstance(a.v, (str, bytes))):
            if a is UNBOUND:
                return [VTOP] * n
            self.raise_exc(st, "TypeError", node, f"unpack of non-iterable {_desc(a)}")
            return None
        if isinstance(a, EI) and a.typ == "urllib.parse.SplitResult":
            k = 5
            if star is None and k != n:
                bad()
                return None
            return [V(S(ml=0, taint=WIRE))] * n
        return [VTOP] * n

    def set_attr(self, st, b, attr, v, node):
        out = []
        atoms = list(b)
        for i, a in enumerate(atoms):
            s = st if i == len(atoms) - 1 else st.fork()
            if isinstance(a, (R, W)):
                o = s.get(a.addr)
                if isinstance(o, Obj):
                    # property setter?
                    if o.cls in self.classes:
                        p = self.class_lookup(s, o.cls, attr)
                        if p is not None and len(p) == 1:
                            (pa,) = p
                            if isinstance(pa, Prop):
                                if pa.fset is None:
                                    self.raise_exc(s, "AttributeError", node, f"property {attr} has no setter")
                                    continue
                                r = self.call_atom(s, BM(R(a.addr), pa.fset), [v], {}, node)
                                out.extend(x for x, _ in r)
                                continue
                    self.put(s, a.addr, o.set(attr, v, weak=o.many))
                    h = self.hooks.get("setattr")
                    if h:
                        h(self, s, a, o, attr, v, node)
                elif isinstance(o, ExtO):
                    self.put(s, a.addr, o.set(attr, v))
                out.append(s)
            elif isinstance(a, Cls):
                o = s.get(("cls", a.qual))
                if o is not None:
                    self.put(s, ("cls", a.qual), o.set(attr, v))
                out.append(s)
            elif isinstance(a, Mod):
                o = s.get(("mod", a.name))
                if o is not None:
                    self.put(s, ("mod", a.name), o.set(attr, v))
                out.append(s)
            elif isinstance(a, C) and a is not UNBOUND:
                self.raise_exc(s, "AttributeError", node, f"set .{attr} on {_desc(a)}")
            else:
                out.append(s)
        return self.merge(out)

    def set_item(self, st, b, k, v, node):
        out = []
        for i, a in enumerate(list(b)):
            s = st.fork() if len(b) > 1 else st
            if isinstance(a, (R, W)):
                o = s.get(a.addr)
                if isinstance(o, DictO):
                    self.dict_put(s, a.addr, k, v)
                elif isinstance(o, ListO):
                    self.put(s, a.addr, ListO(None, join(o.elem, v), o.lo, o.hi, o.unord, o.many, o.sure))
                elif isinstance(o, Obj) and o.cls in self.classes:
                    f = self.class_lookup(s, o.cls, "__setitem__")
                    if f is not None:
                        for s2, _ in self.call(s, V(*[BM(R(a.addr), x) for x in f]), [k, v], {}, node):
                            out.append(s2)
                        continue
                out.append(s)
            elif isinstance(a, (S, B, I, F, T, TN)) or (isinstance(a, C) and a is not UNBOUND):
                self.raise_exc(s, "TypeError", node, f"item assignment on {_desc(a)}")
            else:
                out.append(s)
        return self.merge(out)

    def dict_put(self, st, addr, k, v):
        o = st.get(addr)
        ent = dict(o.ent)
        okey, oval = o.okey, o.oval
        if len(k) == 1 and const_key(next(iter(k))):
            (ka,) = k
            if o.many:
                old = ent.get(ka)
                ent[ka] = (join(old[0], v), old[1]) if old else (v, True)
            else:
                ent[ka] = (v, False)
        else:
            for ka in k:
                if const_key(ka) and len(k) <= 40:
                    old = ent.get(ka)
                    ent[ka] = (join(old[0], v), old[1]) if old else (v, True)
                else:
                    if isinstance(ka, Top):
                        self.degrade("an unknown key is stored")
                    okey = join(okey, V(ka))
                    oval = join(oval, v)
                    if not (isinstance(ka, S) and ka.other):
                        for e in list(ent):
                            if _may_equal(ka, e) is not False:
                                ent[e] = (join(ent[e][0], v), ent[e][1])
        self.put(st, addr, o.but(ent=ent, okey=okey, oval=oval))

    # ------------------------------------------------------------------ expressions
    def ev(self, node, st, hint=None):
        self.steps += 1
        m = getattr(self, "ev_" + node.__class__.__name__, None)
        if m is None:
            self.unsup(node, "expression " + node.__class__.__name__)
            return [(st, VTOP)]
        return m(node, st)

    def ev_many(self, nodes, st):
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(n, s):
                    nxt.append((s2, vs + [v]))
            res = nxt
            if len(res) > 12:
                res = self.merge_many(res)
        return res

    def merge_many(self, res):
        if not res:
            return res
        s, vs = res[0]
        for t, ws in res[1:]:
            s = join_states(s, t)
            vs = [join(a, b) for a, b in zip(vs, ws)]
        return [(s, vs)]

    def ev_Constant(self, node, st):
        v = node.value
        if isinstance(v, complex):
            return [(st, VTOP)]
        return [(st, frozenset([C(v)]))]

    def ev_Name(self, node, st):
        v = self.lookup(node.id, st)
        if v is None:
            self.raise_exc(st, "NameError", node, f"name {node.id} is not defined")
            return []
        if UNBOUND in v:
            rest = v - UNB
            # after a join the value may be bound exactly when some flag says so: only a path that never
            # assigned it is a proof
            self.raise_exc(st, "UnboundLocalError", node, f"local {node.id} may be unassigned", weak=bool(rest))
            if not rest:
                return []
            st.locals[node.id] = rest
            return [(st, rest)]
        return [(st, v)]

    def lookup(self, name, st):
        f = self.frame
        if name[0] == "$":
            return st.locals.get(name)
        if f.kind == "fn":
            fn = f.fn
            if name in fn.locals:
                if name in fn.captured and "$env" in st.locals:
                    (e,) = st.locals["$env"]
                    o = st.get(e.addr)
                    if name in o.attrs:
                        v, m = o.attrs[name]
                        return v
                    return UNB
                v = st.locals.get(name)
                return v if v is not None else UNB
            env = f.env
            while env is not None:
                o = st.get(env)
                if o is None:
                    break
                if name in o.attrs:
                    return o.attrs[name][0]
                p = o.attrs.get("$parent")
                env = next(iter(p[0])).addr if p else None
        elif f.kind == "class":
            o = st.get(f.ns)
            if name in o.attrs:
                return o.attrs[name][0]
            if name in st.locals:
                return st.locals[name]
            env = f.env
            while env is not None:
                o = st.get(env)
                if o is None:
                    break
                if name in o.attrs:
                    return o.attrs[name][0]
                p = o.attrs.get("$parent")
                env = next(iter(p[0])).addr if p else None
        else:
            if name in st.locals:
                return st.locals[name]
        o = st.get(("mod", f.mod))
        if o is not None and name in o.attrs:
            return o.attrs[name][0]
        if name in self.models.INTRINSICS and f.mod in self.stub_mods or (
            name in self.models.INTRINSICS and f.mod.startswith("$")
        ):
            return V(Ext("$." + name))
        if hasattr(builtins, name):
            return V(Ext("builtins." + name))
        if name in ("__name__", "__file__"):
            return V(S())
        if name == "__class__" and f.fn is not None and f.fn.cls:
            return V(Cls(f.fn.cls))
        return None

    def ev_NamedExpr(self, node, st):
        return [(self.store_name(node.target.id, v, s, node), v) for s, v in self.ev(node.value, st)]

    def ev_Tuple(self, node, st):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            out = []
            for s, vs in self.ev_many([e.value if isinstance(e, ast.Starred) else e for e in node.elts], st):
                ok = True
                elems = []
                for e, v in zip(node.elts, vs):
                    if isinstance(e, ast.Starred):
                        x = self.exact_elems(s, v)
                        if x is None:
                            ok = False
                            el, _, _ = self.summary_elems(s, v, node)
                            elems.append(el)
                        else:
                            elems.extend(x)
                    else:
                        elems.append(v)
                out.append((s, V(T(elems)) if ok else V(TN(joinall(elems)))))
            return out
        return [(s, V(T(vs))) for s, vs in self.ev_many(node.elts, st)]

    def ev_List(self, node, st):
        out = []
        for s, vs in self.ev_many([e.value if isinstance(e, ast.Starred) else e for e in node.elts], st):
            if any(isinstance(e, ast.Starred) for e in node.elts):
                elems = []
                ok = True
                lo = 0
                for e, v in zip(node.elts, vs):
                    if isinstance(e, ast.Starred):
                        x = self.exact_elems(s, v)
                        if x is None:
                            ok = False
                            el, l, h = self.summary_elems(s, v, node)
                            lo += l or 0
                            elems.append(el)
                        else:
                            elems.extend(x)
                            lo += len(x)
                    else:
                        elems.append(v)
                        lo += 1
                if ok:
                    out.append((s, V(self.new_list(s, node, elems))))
                else:
                    out.append((s, V(self.new_list(s, node, None, joinall(elems), lo, None))))
            else:
                out.append((s, V(self.new_list(s, node, vs))))
        return out

    def ev_Set(self, node, st):
        out = []
        for s, vs in self.ev_many(node.elts, st):
            ats = [a for v in vs for a in v]
            if all(len(v) == 1 for v in vs) and all(const_key(a) for a in ats):
                o = SetO(frozenset(ats))
            else:
                o = SetO(None, joinall(vs), 1 if vs else 0, len(vs))
            out.append((s, V(self.alloc(s, node, o, "s"))))
        return out

    def ev_Dict(self, node, st):
        out = []
        keys = [k for k in node.keys if k is not None]
        if len(keys) == len(node.keys) and all(
            isinstance(k, ast.Constant) for k in keys
        ) and all(isinstance(x, ast.Constant) for x in node.values):
            ent = {}
            for k, x in zip(keys, node.values):
                ent[C(k.value)] = (Cv(x.value), False)
            return [(st, V(self.alloc(st, node, DictO(ent), "d")))]
        res = [(st, [])]
        seq = []
        for k, x in zip(node.keys, node.values):
            if k is not None:
                seq.append(k)
            seq.append(x)
        for s, vs in self.ev_many(seq, st):
            r = self.alloc(s, node, DictO({}), "d")
            i = 0
            for k, x in zip(node.keys, node.values):
                if k is None:
                    v = vs[i]
                    i += 1
                    self.dict_update(s, r.addr, v)
                else:
                    self.check_hashable(s, vs[i], node)
                    self.dict_put(s, r.addr, vs[i], vs[i + 1])
                    i += 2
            out.append((s, V(r)))
        return out

    def dict_update(self, st, addr, v):
        o = st.get(addr)
        for a in v:
            if isinstance(a, (R, W)):
                p = st.get(a.addr)
                p = self.as_dict(st, p)
                if isinstance(p, DictO):
                    ent = dict(o.ent)
                    okey, oval = o.okey, o.oval
                    for k, (x, m) in p.ent.items():
                        if m or len(v) > 1:
                            old = ent.get(k)
                            ent[k] = (join(old[0], x), old[1]) if old else (x, True)
                        else:
                            ent[k] = (x, False)
                    okey = join(okey, p.okey)
                    oval = join(oval, p.oval)
                    o = o.but(ent=ent, okey=okey, oval=oval)
                elif isinstance(p, ListO):
                    for e in ([p.elem] if p.exact is None else p.exact):
                        for t in e:
                            if isinstance(t, T) and len(t.elems) == 2:
                                st.put(addr, o)
                                if p.exact is not None and len(e) == 1:
                                    self.dict_put(st, addr, t.elems[0], t.elems[1])
                                else:
                                    o2 = o.but(many=True)
                                    st.put(addr, o2)
                                    self.dict_put(st, addr, t.elems[0], t.elems[1])
                                    st.put(addr, st.get(addr).but(many=o.many))
                                o = st.get(addr)
                    if p.exact is None and len(v) == 1:
                        ent = dict(o.ent)
                        for m in sorted(p.has, key=repr):
                            if m.__class__ is tuple and m[1] in ent:
                                ent[m[1]] = (ent[m[1]][0], False)
                        o = o.but(ent=ent)
                else:
                    o = o.but(okey=join(o.okey, VTOP), oval=join(o.oval, VTOP))
            elif isinstance(a, Top):
                o = o.but(okey=join(o.okey, VTOP), oval=join(o.oval, VTOP))
        self.put(st, addr, o)

    def as_dict(self, st, o):
        return o

    def ev_JoinedStr(self, node, st):
        res = [(st, [])]
        for part in node.values:
            nxt = []
            for s, acc in res:
                if isinstance(part, ast.Constant):
                    nxt.append((s, acc + [Cv(part.value)]))
                else:
                    for s2, v in self.ev(part.value, s):
                        if part.conversion == 114:  # !r
                            sv = [(s2, V(S(ml=1, taint=md.cut(self.taint(s2, v)) - {"nl", "cr"})))]
                        else:
                            spec = None
                            if part.format_spec is not None:
                                spec = "".join(
                                    x.value if isinstance(x, ast.Constant) else "?" for x in part.format_spec.values)
                            sv = self.format_value(s2, v, spec, part)
                        for s3, x in sv:
                            nxt.append((s3, acc + [x]))
            res = nxt
            if len(res) > 8:
                res = self.merge_lists(res)
        out = []
        for s, acc in res:
            out.append((s, self.concat(acc)))
        return out

    def merge_lists(self, res):
        return self.merge_many(res)

    def format_value(self, st, v, spec, node):
        if spec:
            for a in v:
                if isinstance(a, C) and a.v is None:
                    self.raise_exc(st, "TypeError", node, "format spec on None")
                    v = v - VNONE
            return [(st, V(S(ml=None, taint=self.taint(st, v))))] if v else []
        if len(v) > 1 and all(a.__class__ is C and a.t == "int" for a in v):
            return [(st, V(S(ml=1)))]  # a counter: its exact values only make the text grow
        return self.to_str(st, v, node)

    def concat(self, parts):
        """Concatenate string values."""
        if all(len(p) == 1 and isinstance(next(iter(p)), C) and isinstance(next(iter(p)).v, str) for p in parts):
            return Cv("".join(next(iter(p)).v for p in parts))
        # small products of constants
        n = 1
        for p in parts:
            n *= max(1, len(p))
        if n <= 24 and all(isinstance(a, C) and isinstance(a.v, str) for p in parts for a in p):
            outs = [""]
            for p in parts:
                outs = [o + a.v for o in outs for a in p]
            return frozenset(C(o) for o in outs)
        ml = 0
        has = set()
        taint = frozenset()
        for p in parts:
            pm = None
            ph = None
            for a in p:
                if isinstance(a, C) and isinstance(a.v, str):
                    m, h = len(a.v), ({a.v} if a.v else set())
                elif isinstance(a, S):
                    m, h = a.ml or 0, set(a.has)
                    taint |= a.taint
                elif isinstance(a, Top):
                    return VTOP
                else:
                    m, h = 0, set()
                pm = m if pm is None else min(pm, m)
                ph = h if ph is None else ph & h
            ml += pm or 0
            has |= ph or set()
        sym = None
        if parts and len(parts[0]) == 1:
            (a,) = parts[0]
            if isinstance(a, C) and isinstance(a.v, str) and a.v:
                sym = ("pre", a.v[:40])
        odd = sum(1 for p in parts for a in p if isinstance(a, S) and a.other and a.sym is None)
        one = odd == 1 and all(len(p) == 1 and isinstance(next(iter(p)), (C, S)) for p in parts) and sum(
            1 for p in parts for a in p if isinstance(a, S)) == 1
        if taint & md.LABELS:
            taint, opens = md.labels(parts)
            if opens:
                sym = ("op",)
        return V(S(ml=ml if ml else 0, has=frozenset(sorted(has)[:8]), taint=taint, sym=sym, other=one))

    def taint(self, st, v, depth=0):
        t = frozenset()
        for a in v:
            if isinstance(a, S):
                t |= a.taint
            elif isinstance(a, B):
                t |= a.taint
            elif isinstance(a, J):
                t |= WIRE
            elif isinstance(a, EI):
                if a.typ in self.models.TAINTED_EI:
                    t |= WIRE
            elif isinstance(a, T) and depth < 3:
                for e in a.elems:
                    t |= self.taint(st, e, depth + 1)
            elif isinstance(a, TN) and depth < 3:
                t |= self.taint(st, a.elem, depth + 1)
            elif isinstance(a, (R, W)) and depth < 3:
                o = st.get(a.addr)
                if isinstance(o, (ListO, SetO)):
                    t |= self.taint(st, o.elem, depth + 1)
                elif isinstance(o, DictO):
                    t |= self.taint(st, o.allkeys(), depth + 1) | self.taint(st, o.allvals(), depth + 1)
        return t

    def to_str(self, st, v, node):
        """str(v): list of (state, V)."""
        out = []
        easy = set()
        for a in v:
            if isinstance(a, C):
                if a.t == "bytes":
                    easy.add(S(ml=1))
                elif a.t == "int" and abs(a.v) >= 10 ** 4000:
                    easy.add(S(ml=1))
                elif isinstance(a.v, str):
                    easy.add(a)
                else:
                    easy.add(C(str(a.v)))
            elif isinstance(a, S):
                easy.add(a)
            elif isinstance(a, (I, F)):
                easy.add(S(ml=1))
            elif isinstance(a, J):
                easy.add(S(ml=0, taint=WIRE))
            elif isinstance(a, (R, W)):
                o = st.get(a.addr)
                if isinstance(o, Obj) and o.cls in self.classes:
                    f = self.class_lookup(st, o.cls, "__str__")
                    if f is None:
                        f = self.class_lookup(st, o.cls, "__repr__")
                    if f is not None and any(isinstance(x, Fn) for x in f):
                        for s2, r in self.call(st.fork(), V(*[BM(R(a.addr), x) for x in f]), [], {}, node):
                            for ra in r:
                                if isinstance(ra, (I, F, B)) or (isinstance(ra, C) and ra.t != "str" and ra is not UNBOUND):
                                    self.raise_exc(s2, "TypeError", node, f"__str__ returned {_desc(ra)}")
                            out.append((s2, r))
                        continue
                if not isinstance(o, Obj):
                    self.check_order(st, V(a), node, "str", node)
                easy.add(S(ml=1 if not isinstance(o, Obj) else None, taint=self.taint(st, V(a))))
            elif isinstance(a, EI):
                easy.add(self.models.ei_str(self, st, a))
            elif isinstance(a, Top):
                easy.add(TOP)
            else:
                easy.add(S(ml=1, taint=self.taint(st, V(a))))
        if easy:
            out.append((st, norm(frozenset(easy))))
        return out

    def ev_Attribute(self, node, st):
        out = []
        for s, b in self.ev(node.value, st):
            out.extend(self.get_attr(s, b, node.attr, node))
        return out

    def get_attr(self, st, b, attr, node):
        self.sites.add((self.qual(), self.sid(node), "attr"))
        vals = EMPTY
        out = []
        bad = []
        for a in b:
            r = self.attr_atom(st, a, attr, node)
            if r is None:
                bad.append(a)
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                vals = vals | r
        if vals:
            out.append((st, norm(vals)))
        if bad:
            ok = out[0][0] if out else st
            for a in bad:
                weak = False
                self.raise_exc(st, "AttributeError", node, f".{attr} on {_desc(a, st)}", weak=weak)
            if out and _is_path(node.value):
                # afterwards the base is known to have the attribute
                good = frozenset(x for x in b if x not in bad)
                self.path_set(st, node.value, good)
        return out

    def attr_atom(self, st, a, attr, node):
        """Value set (frozenset), list of (state, V) for calls, or None when missing."""
        k = a.__class__
        if k is R or k is W:
            o = st.get(a.addr)
            if o is None or isinstance(o, Unknown):
                return VTOP
            if isinstance(o, Obj):
                if o.cls is None:
                    if attr in o.attrs:
                        return o.attrs[attr][0]
                    return VTOP
                return self.obj_attr(st, a, o, attr, node)
            if isinstance(o, ExtO):
                if attr in o.attrs:
                    return o.attrs[attr]
                return V(XM(a, attr))
            t = {ListO: list, DictO: dict, SetO: set}[o.__class__]
            if isinstance(o, DictO) and o.cls:
                return V(XM(a, attr))
            if hasattr(t, attr) or (t is list and attr in ("popleft", "appendleft")):
                return V(XM(a, attr))
            return None
        if k is C:
            if a is UNBOUND:
                return VTOP
            if hasattr(type(a.v), attr):
                return V(XM(a, attr))
            return None
        if k is S:
            if hasattr(str, attr):
                return V(XM(a, attr))
            if a.cls:
                return VTOP
            return None
        if k is B:
            return V(XM(a, attr)) if hasattr(bytes, attr) else None
        if k is I:
            return V(XM(a, attr)) if hasattr(int, attr) else None
        if k is F:
            return V(XM(a, attr)) if hasattr(float, attr) else None
        if k is T or k is TN:
            return V(XM(a, attr)) if hasattr(tuple, attr) else None
        if k is Mod:
            o = st.get(("mod", a.name))
            if o is not None and attr in o.attrs:
                return o.attrs[attr][0]
            sub = a.name + "." + attr
            if sub in self.imported:
                return V(Mod(sub))
            if a.name in self.stub_mods:
                return V(Ext(a.name + "." + attr))
            return None
        if k is Ext:
            return self.ext_attr(a, attr, node)
        if k is Cls:
            ci = self.classes[a.qual]
            v = self.class_lookup(st, a.qual, attr)
            if v is not None:
                res = set()
                for x in v:
                    if isinstance(x, CM):
                        res.add(BM(a, x.fn))
                    elif isinstance(x, SM):
                        res.add(x.fn)
                    else:
                        res.add(x)
                return frozenset(res)
            if attr == "__dict__":
                o = st.get(ci.addr)
                d = DictO({C(n): v for n, v in o.attrs.items()})
                return V(self.alloc(st, node, d, "clsdict"))
            if attr == "__orig_bases__":
                return V(T([V(x) for x in self.orig_bases_of(ci)]))
            if attr == "__mro__":
                return V(T([V(x) for x in ci.mro]))
            if attr in ("__name__", "__qualname__"):
                return Cv(ci.name)
            if attr in ("__init__", "__new__", "__eq__", "__hash__", "__class__", "__subclasses__",
                        "__getstate__", "__reduce__"):
                return V(XM(a, attr))
            if any(isinstance(x, Ext) and x.path not in _PLAIN_BASES for x in ci.mro):
                return V(XM(a, attr))
            return None
        if k is EnumM:
            if attr == "value" or attr == "_value_":
                return a.value
            if attr == "name":
                return Cv(a.name)
            v = self.class_lookup(st, a.cls, attr)
            if v is not None:
                (f,) = v if len(v) == 1 else (TOP,)
                if isinstance(f, Prop):
                    return self.call_atom(st, BM(a, f.fget), [], {}, node)
                if isinstance(f, Fn):
                    return V(BM(a, f))
                return v
            if attr in ("__class__",):
                return V(Cls(a.cls))
            return None
        if k is GA:
            return V(XM(a, attr)) if attr not in ("__origin__",) else V(a.origin)
        if k is Super:
            return self.super_attr(st, a, attr, node)
        if k is Prop:
            return V(XM(a, attr))
        if k is EI:
            return self.models.ei_attr(self, st, a, attr, node)
        if k is Fn:
            fi = self.fns[a.fid]
            if attr in ("__name__", "__qualname__"):
                return Cv(fi.qual.rsplit(".", 1)[-1])
            return VTOP
        if k is BM or k is Partial or k is XM:
            return VTOP
        if k is J:
            return None
        return VTOP

    def obj_attr(self, st, a, o, attr, node):
        if self.on_attr is not None:
            self.on_attr(self, st, a, o, attr, node)
        ref = R(a.addr)
        ci = self.classes.get(o.cls)
        cv = self.class_lookup(st, o.cls, attr) if ci else None
        if cv is not None and len(cv) == 1:
            (p,) = cv
            if isinstance(p, Prop):
                return self.call_atom(st, BM(ref, p.fget), [], {}, node)
        res = EMPTY
        missing = True
        if attr in o.attrs:
            v, m = o.attrs[attr]
            res = v
            missing = m
            if not m:
                return res
        if attr == "__dict__":
            d = DictO({C(n): (v, m) for n, (v, m) in o.attrs.items() if n[0] != "$"})
            return V(self.alloc(st, node, d, "objdict"))
        if attr == "__class__":
            return V(Cls(o.cls))
        if cv is not None:
            for x in cv:
                if isinstance(x, Fn):
                    res = res | V(BM(ref, x))
                elif isinstance(x, CM):
                    res = res | V(BM(Cls(o.cls), x.fn))
                elif isinstance(x, SM):
                    res = res | V(x.fn)
                else:
                    res = res | V(x)
            return norm(res)
        if ci is not None:
            g = self.class_lookup(st, o.cls, "__getattr__")
            if g is not None:
                return self.call(st, V(*[BM(ref, x) for x in g]), [Cv(attr)], {}, node)
            if any(isinstance(x, Ext) and x.path not in _PLAIN_BASES for x in ci.mro) or attr in (
                "__init_subclass__", "__reduce__", "__hash__", "__eq__", "__getstate__", "__module__",
                "__doc__", "__init__", "__repr__", "__str__", "__ne__", "__sizeof__", "__weakref__",
            ):
                return res | V(XM(ref, attr))
        if missing and res:
            self.raise_exc(st, "AttributeError", node, f".{attr} on {_desc(a, st)} may be unset")
            return res
        return None

    def class_lookup(self, st, qual, attr, start=0):
        ci = self.classes.get(qual)
        if ci is None:
            return None
        for a in ci.mro[start:]:
            if isinstance(a, Cls):
                o = st.get(("cls", a.qual))
                if o is not None and attr in o.attrs:
                    return o.attrs[attr][0]
        return None

    def super_attr(self, st, a, attr, node):
        slf = a.slf
        if isinstance(slf, R):
            o = st.get(slf.addr)
            qual = o.cls if isinstance(o, Obj) else None
        elif isinstance(slf, Cls):
            qual = slf.qual
        else:
            return VTOP
        if qual not in self.classes:
            return VTOP
        mro = self.classes[qual].mro
        i = 0
        for j, x in enumerate(mro):
            if isinstance(x, Cls) and x.qual == a.cls:
                i = j + 1
        for x in mro[i:]:
            if isinstance(x, Cls):
                o = st.get(("cls", x.qual))
                if o is not None and attr in o.attrs:
                    v = o.attrs[attr][0]
                    res = set()
                    for f in v:
                        if isinstance(f, Prop):
                            return self.call_atom(st, BM(slf, f.fget), [], {}, node)
                        if isinstance(f, Fn):
                            res.add(BM(slf, f))
                        elif isinstance(f, CM):
                            res.add(BM(slf if isinstance(slf, Cls) else Cls(qual), f.fn))
                        elif isinstance(f, SM):
                            res.add(f.fn)
                        else:
                            res.add(f)
                    return frozenset(res)
            elif isinstance(x, Ext) and x.path not in _PLAIN_BASES:
                return V(XM(slf, attr))
        if attr in ("__init__", "__init_subclass__", "__new__", "__setattr__", "__getstate__",
                    "__repr__", "__str__", "__eq__", "__hash__"):
            return V(Ext("$.noop"))
        return None

    def ext_attr(self, a, attr, node):
        p = a.path + "." + attr
        v = self.models.ext_const(p)
        if v is not None:
            return v
        if p in self.stub_mods or p in self.mods:
            return V(Mod(p))
        return V(Ext(p))

    # ---- subscripts
    def ev_index(self, node, st):
        if isinstance(node, ast.Slice):
            parts = [x for x in (node.lower, node.upper, node.step) if x is not None]
            out = []
            for s, vs in self.ev_many(parts, st):
                it = iter(vs)
                lo = next(it) if node.lower is not None else VNONE
                hi = next(it) if node.upper is not None else VNONE
                stp = next(it) if node.step is not None else VNONE
                out.append((s, V(EI("slice", frozenset([T([lo, hi, stp])])))))
            return out
        return self.ev(node, st)

    def ev_Subscript(self, node, st):
        out = []
        for s, b in self.ev(node.value, st):
            # generic classes / typing constructs
            if all(isinstance(a, (Cls, GA)) or (isinstance(a, Ext) and self.models.is_typing(a.path)) for a in b) and b:
                try:
                    for s2, k in self.ev_index(node.slice, s):
                        ats = []
                        for a in b:
                            if isinstance(a, Cls) and self.classes[a.qual].enum:
                                ats.extend(self.enum_member(s2, a, k, node))
                                continue
                            args = []
                            for ka in k:
                                if isinstance(ka, T):
                                    args.extend(next(iter(e)) if len(e) == 1 else TOP for e in ka.elems)
                                else:
                                    args.append(ka)
                            ats.append(GA(a.origin if isinstance(a, GA) else a, args))
                        out.append((s2, frozenset(ats)))
                    continue
                except AnalysisBroken:
                    raise
            for s2, k in self.ev_index(node.slice, s):
                groups = self.key_groups(s2, b, k, node.slice)
                if groups is None:
                    out.extend(self.get_item(s2, b, k, node))
                    continue
                for g in groups:
                    s3 = s2.fork()
                    self.path_set(s3, node.slice, g)
                    out.extend(self.get_item(s3, b, g, node))
        return out

    def key_groups(self, st, b, k, knode):
        """Split a lookup with several possible constant keys by what they map to."""
        if len(k) < 2 or len(b) != 1 or not isinstance(knode, ast.Name):
            return None
        (a,) = b
        if not isinstance(a, R):
            return None
        o = st.get(a.addr)
        if not isinstance(o, DictO) or o.many or o.dflt is not None:
            return None
        gs = {}
        for x in k:
            if not const_key(x) or x not in o.ent:
                return None
            gs.setdefault(o.ent[x], set()).add(x)
        if not 2 <= len(gs) <= 12:
            return None
        return [frozenset(g) for g in gs.values()]

    def enum_member(self, st, a, k, node):
        res = []
        for ka in k:
            if isinstance(ka, C) and isinstance(ka.v, str):
                v = self.class_lookup(st, a.qual, ka.v)
                if v:
                    res.extend(v)
                else:
                    self.raise_exc(st, "KeyError", node, f"enum member {ka.v}")
            else:
                self.raise_exc(st, "KeyError", node, "enum member lookup", weak=isinstance(ka, Top))
                o = st.get(("cls", a.qual))
                for v, _ in o.attrs.values():
                    res.extend(x for x in v if isinstance(x, EnumM))
        return res

    def get_item(self, st, b, k, node):
        self.sites.add((self.qual(), self.sid(node), "item"))
        vals = EMPTY
        out = []
        for a in b:
            r = self.item_atom(st, a, k, node)
            if r is None:
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                vals = vals | r
        if vals:
            out.append((st, norm(vals)))
        return out

    def item_atom(self, st, a, k, node):
        kk = a.__class__
        if kk is R or kk is W:
            o = st.get(a.addr)
            if isinstance(o, DictO):
                return self.dict_get(st, a, o, k, node)
            if isinstance(o, ListO):
                return self.list_item(st, a, o, k, node)
            if isinstance(o, SetO):
                self.raise_exc(st, "TypeError", node, "subscript of a set")
                return None
            if isinstance(o, Obj) and o.cls in self.classes:
                f = self.class_lookup(st, o.cls, "__getitem__")
                if f is not None:
                    return self.call(st, V(*[BM(R(a.addr), x) for x in f]), [k], {}, node)
                if not any(isinstance(x, Ext) and x.path not in _PLAIN_BASES for x in self.classes[o.cls].mro):
                    self.raise_exc(st, "TypeError", node, f"subscript of {_desc(a, st)}")
                    return None
            return VTOP
        if kk is T:
            return self.seq_item(st, [*a.elems], k, node, lambda: joinall(a.elems), a)
        if kk is TN:
            if any(isinstance(x, EI) and x.typ == "slice" for x in k):
                return V(TN(a.elem))
            self.raise_exc(st, "IndexError", node, "tuple index", weak=True)
            return a.elem
        if kk is C:
            if a is UNBOUND:
                return VTOP
            if isinstance(a.v, (str, bytes)):
                res = set()
                for ka in k:
                    if isinstance(ka, EI) and ka.typ == "slice":
                        sl = _const_slice(ka)
                        if sl is not None:
                            res.add(C(a.v[sl]))
                        elif isinstance(a.v, str):
                            res.add(S(ml=0))
                        else:
                            res.add(B())
                    elif isinstance(ka, C) and isinstance(ka.v, int):
                        try:
                            res.add(C(a.v[ka.v]))
                        except IndexError:
                            self.raise_exc(st, "IndexError", node, "string index out of range")
                    elif isinstance(ka, (I, Top)):
                        if isinstance(a.v, str):
                            res.add(S(ml=1))
                        else:
                            res.add(I(0, 255))
                    elif isinstance(ka, C) or isinstance(ka, S):
                        self.raise_exc(st, "TypeError", node, "string index of wrong type")
                return frozenset(res) or None
            self.raise_exc(st, "TypeError", node, f"subscript of {_desc(a)}")
            return None
        if kk is S:
            return self.str_item(st, a, k, node)
        if kk is B:
            res = set()
            for ka in k:
                if isinstance(ka, EI) and ka.typ == "slice":
                    res.update(_bytes_slice(a, ka))
                else:
                    if isinstance(ka, C) and isinstance(ka.v, int):
                        n = ka.v + 1 if ka.v >= 0 else -ka.v
                        if a.ml is not None and a.ml < n:
                            self.raise_exc(st, "IndexError", node, f"bytes[{ka.v}] of possibly short bytes")
                    res.add(I(0, 255))
            return frozenset(res) or None
        if kk in (I, F):
            self.raise_exc(st, "TypeError", node, f"subscript of {_desc(a)}")
            return None
        if kk is J:
            self.raise_exc(st, "TypeError", node, "subscript of arbitrary JSON value")
            return V(J())
        if kk is EI:
            return self.models.ei_item(self, st, a, k, node)
        if kk in (Fn, BM, Partial, WR, EnumM):
            self.raise_exc(st, "TypeError", node, f"subscript of {_desc(a)}")
            return None
        if kk is Ext and a.path == "sys.modules":
            res = EMPTY
            for ka in k:
                if isinstance(ka, C) and isinstance(ka.v, str):
                    if ka.v in self.imported:
                        res |= V(Mod(ka.v))
                    else:
                        self.raise_exc(st, "KeyError", node, "sys.modules lookup")
                elif isinstance(ka, S) and ka.other:
                    self.raise_exc(st, "KeyError", node, "sys.modules lookup")
                else:
                    self.raise_exc(st, "KeyError", node, "sys.modules lookup")
                    if isinstance(ka, S) and ka.sym and ka.sym[0] == "pre" and len(ka.sym[1]) < 40:
                        res |= frozenset(Mod(m) for m in self.imported if m.startswith(ka.sym[1]))
                    else:
                        res |= VTOP
            return res or None
        return VTOP

    def str_item(self, st, a, k, node):
        res = set()
        for ka in k:
            if isinstance(ka, EI) and ka.typ == "slice":
                res.add(self.models.str_slice(self, a, ka))
            else:
                if isinstance(ka, C) and ka.t in ("int", "bool"):
                    n = ka.v + 1 if ka.v >= 0 else -ka.v
                    if a.ml is None:
                        self.raise_exc(st, "IndexError", node, f"str[{ka.v}]", weak=True)
                    elif a.ml < n:
                        mm = self.models.min_len(self, a)
                        if mm is None:
                            self.raise_exc(st, "IndexError", node, f"str[{ka.v}]", weak=True)
                        elif mm < n:
                            self.raise_exc(st, "IndexError", node, f"str[{ka.v}] of a possibly shorter string")
                    res.add(S(ml=1, mx=1, taint=md.cut(a.taint), sym=("ch", a.sym, ka.v) if a.sym else None))
                    if _is_path(node.value) and a.ml is not None and a.ml < n:
                        pass
                elif isinstance(ka, (I, Top)):
                    res.add(S(ml=1, mx=1, taint=a.taint))
                else:
                    self.raise_exc(st, "TypeError", node, f"str indexed with {_desc(ka)}")
        return frozenset(res) or None

    def seq_item(self, st, elems, k, node, all_, a):
        res = EMPTY
        for ka in k:
            if isinstance(ka, EI) and ka.typ == "slice":
                sl = _const_slice(ka)
                if sl is not None:
                    res |= V(T(elems[sl]))
                else:
                    res |= V(TN(all_()))
            elif isinstance(ka, C) and ka.t in ("int", "bool"):
                try:
                    res |= elems[ka.v]
                except IndexError:
                    self.raise_exc(st, "IndexError", node, f"tuple index {ka.v} out of range")
            elif isinstance(ka, (C, S)):
                self.raise_exc(st, "TypeError", node, "tuple index of wrong type")
            else:
                res |= all_()
        return res or None

    def list_item(self, st, a, o, k, node):
        res = EMPTY
        for ka in k:
            if isinstance(ka, EI) and ka.typ == "slice":
                sl = _const_slice(ka)
                if o.exact is not None and sl is not None:
                    res |= V(self.new_list(st, node, list(o.exact)[sl], kind="slice"))
                else:
                    lo = 0
                    hi = o.hi
                    if sl is not None and sl.step is None and sl.stop is None and sl.start is not None and sl.start >= 0:
                        lo = max(0, o.lo - sl.start)
                        hi = None if hi is None else max(0, hi - sl.start)
                    elif sl is not None and sl.step is None and (sl.start is None or sl.start == 0) and sl.stop is not None:
                        if sl.stop >= 0:
                            lo = min(o.lo, sl.stop)
                            hi = sl.stop if hi is None else min(hi, sl.stop)
                        else:
                            lo = max(0, o.lo + sl.stop)
                    elif sl is not None and sl.start is None and sl.stop is None:
                        lo = o.lo
                    res |= V(self.new_list(st, node, None, o.elem, lo, hi, o.unord, o.sure, kind="slice"))
            elif isinstance(ka, C) and ka.t in ("int", "bool"):
                n = ka.v + 1 if ka.v >= 0 else -ka.v
                if o.hi is not None and o.hi < n:
                    self.raise_exc(st, "IndexError", node, f"list index {ka.v} out of range")
                    continue
                if o.lo < n:
                    self.raise_exc(st, "IndexError", node, f"list index {ka.v} of a possibly shorter list", weak=not o.sure)
                    if _is_path(node.value) and not o.many and o.exact is None and len(k) == 1:
                        self.put_quiet(st, a.addr, ListO(None, o.elem, n, o.hi, o.unord, o.many, False))
                if o.exact is not None:
                    res |= o.exact[ka.v]
                else:
                    res |= o.elem
                if o.unord and o.hi != 1:
                    self.check_order(st, V(a), node, "index", node)
            elif isinstance(ka, S) or isinstance(ka, C):
                self.raise_exc(st, "TypeError", node, f"list index {_desc(ka)}")
            else:
                if o.hi == 0:
                    self.raise_exc(st, "IndexError", node, "index into an empty list")
                res |= o.elem
        return res or None

    def put_quiet(self, st, addr, obj):
        st.put(addr, obj)

    def check_hashable(self, st, k, node):
        for a in k:
            if isinstance(a, R):
                o = st.get(a.addr)
                if isinstance(o, (ListO, DictO, SetO)):
                    self.raise_exc(st, "TypeError", node, "unhashable key (" + {ListO: "list", DictO: "dict", SetO: "set"}[o.__class__] + ")")
            elif isinstance(a, J):
                self.raise_exc(st, "TypeError", node, "unhashable key (arbitrary JSON value)")
            elif isinstance(a, T):
                for e in a.elems:
                    self.check_hashable(st, e, node)

    def dict_lookup(self, st, o, k):
        """(values found, may be missing, certainly missing)."""
        vals = EMPTY
        missing = False
        for ka in k:
            if const_key(ka):
                if ka in o.ent:
                    v, m = o.ent[ka]
                    vals |= v
                    if m:
                        missing = True
                    continue
                if isinstance(ka, C) and ka.t == "bool" and C(int(ka.v)) in o.ent:
                    vals |= o.ent[C(int(ka.v))][0]
                    continue
                if o.okey and any(_may_equal(x, ka) is not False for x in o.okey):
                    vals |= o.oval
                missing = True
            elif isinstance(ka, S) and ka.other:
                if o.okey:
                    vals |= o.oval
                missing = True
            else:
                if isinstance(ka, R):
                    ob = st.get(ka.addr)
                    if isinstance(ob, (ListO, DictO, SetO)):
                        continue
                for e, (v, m) in o.ent.items():
                    if _may_equal(ka, e) is not False:
                        vals |= v
                vals |= o.oval
                missing = True if not isinstance(ka, (Top, EI, R, W)) else (missing or None)
        return vals, missing

    def dict_get(self, st, a, o, k, node):
        self.check_hashable(st, k, node)
        vals, missing = self.dict_lookup(st, o, k)
        if missing and all(isinstance(x, S) and x.sym == ("in", a.addr) for x in k):
            missing = False
        if o.dflt is not None:
            vals |= self.default_value(st, a, o, node)
            return norm(vals)
        if missing:
            ks = ", ".join(sorted(repr(x.v) for x in k if isinstance(x, C))) or "key"
            if not getattr(node, "_tested", False):
                self.raise_exc(st, "KeyError", node, f"dict[{ks[:60]}] may be missing", weak=not o.sure)
        elif missing is None:
            self.raise_exc(st, "KeyError", node, "dict[unknown]", weak=True)
        return norm(vals) or None

    def default_value(self, st, a, o, node):
        res = EMPTY
        for s, v in self.call(st, o.dflt, [], {}, node):
            res |= v
        return res

    def dict_missing(self, st, o, k, node, what):
        vals, missing = self.dict_lookup(st, o, k)
        if missing and o.dflt is None:
            self.raise_exc(st, "KeyError", node, f"{what} of a possibly missing key", weak=not o.sure)

    # ---- operators
    def ev_UnaryOp(self, node, st):
        if isinstance(node.op, ast.Not):
            ts, fs = self.cond(node.operand, st)
            out = []
            if fs:
                out.extend((s, VTRUE) for s in self.merge(fs, 3))
            if ts:
                out.extend((s, VFALSE) for s in self.merge(ts, 3))
            return out
        out = []
        for s, v in self.ev(node.operand, st):
            res = set()
            for a in v:
                if isinstance(a, C) and isinstance(a.v, (int, float)):
                    x = a.v
                    res.add(C(-x if isinstance(node.op, ast.USub) else (+x if isinstance(node.op, ast.UAdd) else ~x)))
                elif isinstance(a, I):
                    if isinstance(node.op, ast.USub):
                        res.add(I(None if a.hi is None else -a.hi, None if a.lo is None else -a.lo, None, a.big))
                    else:
                        res.add(I(None, None, None, a.big))
                elif isinstance(a, F):
                    res.add(F())
                elif isinstance(a, (C, S)) and a is not UNBOUND:
                    self.raise_exc(s, "TypeError", node, f"unary minus on {_desc(a)}")
                else:
                    res.add(TOP)
            if res:
                out.append((s, norm(frozenset(res))))
        return out

    def ev_BinOp(self, node, st):
        out = []
        for s, l in self.ev(node.left, st):
            for s2, r in self.ev(node.right, s):
                out.extend(self.binop(node.op, l, r, s2, node))
        return out

    def binop(self, op, l, r, st, node, inplace=False):
        self.sites.add((self.qual(), self.sid(node), "binop"))
        return self.models.binop(self, op, l, r, st, node, inplace)

    def ev_BoolOp(self, node, st):
        isand = isinstance(node.op, ast.And)
        out = []
        cur = [st]
        for i, e in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s in cur:
                if last:
                    out.extend(self.ev(e, s))
                    continue
                if _is_boolish(e):
                    ts, fs = self.cond(e, s)
                    if isand:
                        out.extend((x, VFALSE) for x in fs)
                        nxt.extend(ts)
                    else:
                        out.extend((x, VTRUE) for x in ts)
                        nxt.extend(fs)
                    continue
                for s2, v in self.ev(e, s):
                    tv, fv, ts, fs = self.truth(s2, v, e)
                    if isand:
                        if fs is not None:
                            out.append((fs, fv))
                        if ts is not None:
                            nxt.append(ts)
                    else:
                        if ts is not None:
                            out.append((ts, tv))
                        if fs is not None:
                            nxt.append(fs)
            cur = self.merge(nxt, 4)
        return self.merge_vals(out)

    def ev_Compare(self, node, st):
        ts, fs = self.cond(node, st)
        out = []
        out.extend((s, VTRUE) for s in self.merge(ts, 3))
        out.extend((s, VFALSE) for s in self.merge(fs, 3))
        return out

    def ev_IfExp(self, node, st):
        ts, fs = self.cond(node.test, st)
        out = []
        for s in self.merge(ts, 3):
            out.extend(self.ev(node.body, s))
        for s in self.merge(fs, 3):
            out.extend(self.ev(node.orelse, s))
        return self.merge_vals(out)

    def ev_Lambda(self, node, st):
        return self.make_fn(node, st)

    def ev_Starred(self, node, st):
        return self.ev(node.value, st)

    def ev_Await(self, node, st):
        return [(s, VTOP) for s, _ in self.ev(node.value, st)]

    def ev_Yield(self, node, st):
        out = []
        if node.value is None:
            out = [(st, VNONE)]
        else:
            for s, v in self.ev(node.value, st):
                s.locals["$yield"] = join(s.locals.get("$yield", EMPTY), v)
                s.locals["$yielded"] = VTRUE
                out.append((s, VTOP))
        return out

    def ev_YieldFrom(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            el, _, _ = self.summary_elems(s, v, node)
            s.locals["$yield"] = join(s.locals.get("$yield", EMPTY), el)
            out.append((s, VTOP))
        return out

    def ev_FormattedValue(self, node, st):
        out = []
        for s, v in self.ev(node.value, st):
            out.extend(self.to_str(s, v, node))
        return out

    # ---- comprehensions
    def ev_ListComp(self, node, st):
        return self.comp(node, st, [node.elt], "list")

    def ev_GeneratorExp(self, node, st):
        return self.comp(node, st, [node.elt], "gen")

    def ev_SetComp(self, node, st):
        return self.comp(node, st, [node.elt], "set")

    def ev_DictComp(self, node, st):
        return self.comp(node, st, [node.key, node.value], "dict")

    def key_src(self, v):
        """Identity of a list of pairs whose first components are being collected."""
        if len(v) == 1:
            (a,) = v
            if isinstance(a, R):
                return a.addr
        return None

    def note_keys(self, addr, src):
        """The collection at addr holds exactly the first components of the pairs in src."""
        if addr in self.keys_of and self.keys_of[addr] != src:
            self.keys_of[addr] = None
        else:
            self.keys_of[addr] = src

    def note_once(self, addr, elem, d, daddr):
        """The list at addr holds the values of dict d: an object stored under one key only occurs once."""
        seen = {}
        for k, (v, _) in d.ent.items():
            for a in v:
                if isinstance(a, R):
                    single = isinstance(k, C) and len(v) == 1
                    seen[a.addr] = single and a.addr not in seen
        for a in d.oval:
            if isinstance(a, R):
                seen[a.addr] = False
        keys = {}
        for k, (v, _) in d.ent.items():
            for a in v:
                if isinstance(a, R) and seen[a.addr]:
                    keys[a.addr] = k
        self.once_of[addr] = (elem, frozenset(x for x, one in seen.items() if one), daddr, keys)

    def only_mine(self, changed, gi, entry, states, ends):
        """Give what only element gi's visit changes its value before the loop, or after the visit (ends)."""
        others = set()
        for j, m in changed.items():
            if j != gi:
                others |= m
        for x in changed.get(gi, ()):
            if x in others:
                continue
            if x[0] is DictO:
                _, ad, k = x
                if k is None:
                    continue
                if ad in others or ad in changed[gi] or ad not in entry.heap:
                    continue
                if ends is None:
                    new = entry.heap[ad].ent.get(k) if isinstance(entry.heap[ad], DictO) else None
                else:
                    vs = [e.heap[ad].ent.get(k) for e in ends if isinstance(e.heap.get(ad), DictO)]
                    if len(vs) != len(ends) or None in vs:
                        continue
                    v = vs[0][0]
                    for w in vs[1:]:
                        v = join(v, w[0])
                    new = (v, any(w[1] for w in vs))
                for s in states:
                    o = s.heap.get(ad)
                    if isinstance(o, DictO) and not o.many:
                        ent = dict(o.ent)
                        if new is None:
                            ent.pop(k, None)
                        elif ends is None:
                            ent[k] = new
                        elif k in ent:
                            ent[k] = (new[0], ent[k][1] or new[1])
                        else:
                            continue
                        s.put(ad, o.but(ent=ent))
                continue
            if ends is None:
                if x in entry.heap:
                    for s in states:
                        s.put(x, entry.heap[x])
                continue
            if any(x not in e.heap for e in ends):
                continue
            o = ends[0].heap[x]
            for e in ends[1:]:
                if e.heap[x] is not o:
                    o = o.join(e.heap[x])
            for s in states:
                s.put(x, o)

    def learn_implied(self, changed, gi, entry, addr, obj):
        """A key that only the visit of an element stores implies the element's own key in the iterated dict."""
        _, _, daddr, keys = self.once_of[addr]
        key = keys.get(obj)
        if key is None:
            return
        others = set()
        for j, m in changed.items():
            if j != gi:
                others |= m
        for x in changed.get(gi, ()):
            if x[0] is not DictO or x[2] is None or x in others or x[1] in others or x[1] == daddr:
                continue
            o = entry.heap.get(x[1])
            if isinstance(o, DictO) and x[2] not in o.ent and not any(_may_equal(y, x[2]) is not False for y in o.okey):
                self.implied[x[1], x[2]] = (daddr, key)

    def once_addr(self, g, once):
        """The object that only occurs in this loop element, and nowhere else in the list."""
        if once and len(g) == 1:
            (a,) = g
            cands = [a] if isinstance(a, R) else [x for v in a.elems if len(v) == 1 for x in v] if isinstance(a, T) else []
            for x in cands:
                if isinstance(x, R) and x.addr in once:
                    return x.addr
                if isinstance(x, T):
                    y = self.once_addr(V(x), once)
                    if y is not None:
                        return y
        return None

    def narrow_keys(self, st, addr, key):
        """key is known to be in the collection at addr: so it is in every dict of the same pairs."""
        d, k2 = self.implied.get((addr, key), (None, None))
        if d is not None:
            o = st.get(d)
            if isinstance(o, DictO) and not o.many and k2 in o.ent and o.ent[k2][1]:
                ent = dict(o.ent)
                ent[k2] = (ent[k2][0], False)
                st.put(d, o.but(ent=ent))
        src = self.keys_of.get(addr)
        if src is None:
            return
        for d, x in self.keys_of.items():
            if x == src and d != addr:
                o = st.get(d)
                if isinstance(o, DictO) and not o.many and key in o.ent and o.ent[key][1]:
                    ent = dict(o.ent)
                    ent[key] = (ent[key][0], False)
                    st.put(d, o.but(ent=ent))

    def dict_items_comp(self, node, st):
        """{k2: v2 for k, v in d.items()} keeps what is known per key."""
        if len(node.generators) != 1:
            return None
        g = node.generators[0]
        it = g.iter
        if (g.ifs or not isinstance(it, ast.Call) or it.args or not isinstance(it.func, ast.Attribute)
                or it.func.attr != "items" or not isinstance(g.target, ast.Tuple) or len(g.target.elts) != 2
                or not all(isinstance(t, ast.Name) for t in g.target.elts)):
            return None
        out = []
        names = [t.id for t in g.target.elts]
        for s, dv in self.ev(it.func.value, st):
            if len(dv) != 1:
                return None
            (a,) = dv
            o = s.get(a.addr) if isinstance(a, R) else None
            if not isinstance(o, DictO):
                return None
            shadow = {n: s.locals.get(n) for n in names}
            r = self.alloc(s, node, DictO({}), "comp")
            todo = [(V(k), v, m, False) for k, (v, m) in o.ent.items()]
            if o.okey:
                todo.append((o.okey, o.oval, True, True))
            cur = [s]
            for kv, vv, m, many in todo:
                nxt = []
                for s2 in cur:
                    s2.locals[names[0]] = kv
                    s2.locals[names[1]] = vv
                    for s3, vs in self.ev_many([node.key, node.value], s2):
                        old = s3.get(r.addr)
                        if many:
                            s3.put(r.addr, old.but(many=True))
                            self.dict_put(s3, r.addr, vs[0], vs[1])
                            s3.put(r.addr, s3.get(r.addr).but(many=False))
                        else:
                            self.dict_put(s3, r.addr, vs[0], vs[1])
                            if m:
                                s3.put(r.addr, s3.get(r.addr).join(old))
                        nxt.append(s3)
                cur = nxt
                if len(cur) > 3:
                    j = cur[0]
                    for s4 in cur[1:]:
                        j = join_states(j, s4)
                    cur = [j]
            for s2 in cur:
                for n, old in shadow.items():
                    if old is None:
                        s2.locals.pop(n, None)
                    else:
                        s2.locals[n] = old
                out.append((s2, V(r)))
        return self.merge_vals(out)

    def comp(self, node, st, elts, kind):
        """Evaluate a comprehension; targets live in the enclosing frame under their own names."""
        if kind == "dict":
            r = self.dict_items_comp(node, st)
            if r is not None:
                return r
        targets = set()
        for g in node.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    targets.add(n.id)
        shadow = {n: st.locals.get(n) for n in targets}
        self._unord = None
        keysrc = None
        if len(node.generators) == 1 and kind == "list":
            g0 = node.generators[0]
            if (isinstance(g0.target, ast.Tuple) and len(g0.target.elts) == 2 and not g0.ifs
                    and isinstance(g0.target.elts[0], ast.Name) and isinstance(node.elt, ast.Name)
                    and node.elt.id == g0.target.elts[0].id and _is_path(g0.iter)):
                for _, sv in self.ev(g0.iter, st.fork()):
                    keysrc = self.key_src(sv)
        results = []  # (state, [exact list of tuples of V] or None, elemVs, lo, hi, unord)
        out = []
        unord = [None]

        def gen(i, s):
            """yield list of (state, items) where items: list of ("one"/"maybe"/"many", values)."""
            if i == len(node.generators):
                r = []
                for s2, vs in self.ev_many(elts, s):
                    r.append((s2, [("one", vs)]))
                return r
            g = node.generators[i]
            res = []
            for s2, itv in self.ev(g.iter, s):
                if kind not in ("set", "dict"):
                    u = self.unordered(s2, itv)
                    if u:
                        unord[0] = u
                for s3, k2, data in self.iter_cases(s2, itv, g.iter):
                    if k2 == "exact" and len(data) > 40 and getattr(node, "any_order", False) and all(
                            len(x) == 1 and next(iter(x)).__class__ is C for x in data):
                        data = list(dict.fromkeys(data))
                    if k2 == "exact" and len(data) <= (120 if self.base is not None else 4000):
                        cur = [(s3, [])]
                        base_ctx = self.frame.ctx
                        for nth, ev in enumerate(data):
                            nxt = []
                            if self.scenario and 1 < len(data) < 12:
                                self.frame.ctx = self.ctx_of(base_ctx, ("nth", nth))
                            for s4, items in cur:
                                held = None
                                if any(x.__class__ in (R, W, T) for it in items for v in it[1] for x in v):
                                    # what has been collected is alive while the next element is computed
                                    held = f"$c{self.sid(node)}.{i}"
                                    s4.locals[held] = V(T([v for it in items for v in it[1]]))
                                for s5, it2 in one(i, g, s4, ev):
                                    now = items
                                    if held:
                                        hv = s5.locals.pop(held, None)
                                        ts = [t for t in hv or () if t.__class__ is T]
                                        if ts:
                                            vals = iter([joinall(c) for c in zip(*(t.elems for t in ts))])
                                            now = [(it[0], [next(vals) for _ in it[1]]) + tuple(it[2:]) for it in items]
                                    nxt.append((s5, now + it2))
                            self.frame.ctx = base_ctx
                            cur = nxt
                            if len(cur) > 4:
                                cur = merge_items(cur)
                        res.extend(cur)
                    else:
                        if k2 == "exact":
                            elem, lo, hi = joinall(data), len(data), len(data)
                        else:
                            elem, lo, hi, _ = data
                        items = []
                        alls = True
                        head = s3
                        groups = self.split_value(elem) if elem else []
                        sfin = s3
                        base_ctx = self.frame.ctx
                        for rnd in range(3):
                            items = []
                            alls = True
                            fin = sfin
                            for gv in groups:
                                tag = self.elem_tag(gv) if len(groups) > 1 else None
                                if tag is not None:
                                    self.frame.ctx = self.ctx_of(base_ctx, ("tag", tag))
                                rs = one(i, g, sfin.fork(), gv)
                                self.frame.ctx = base_ctx
                                if not rs:
                                    continue
                                for s5, it2 in rs:
                                    if not any(x[0] == "one" or x[0] == "many1" for x in it2):
                                        alls = False
                                    for q, vs in it2:
                                        items.append(("many1" if q in ("one", "many1") else "many0", vs))
                                    fin = join_states(fin, s5)
                            if same_state(fin, sfin):
                                break
                            sfin = fin
                        if items:
                            q = "many1" if (alls and (lo or 0) > 0) else "many0"
                            cols = [joinall([vs[c] for _, vs in items]) for c in range(len(elts))]
                            filt = not alls
                            # bounds
                            res.append((sfin, [("rng", cols, (lo or 0) if alls else 0, hi, filt)]))
                        else:
                            res.append((sfin, []))
            return res

        def one(i, g, s, ev):
            res = []
            for sb in self.split_bind(g.target, ev, s, node):
                ts = [sb]
                fs = []
                for c in g.ifs:
                    nt = []
                    for x in ts:
                        a, b = self.cond(c, x)
                        nt.extend(a)
                        fs.extend(b)
                    ts = nt
                for x in ts:
                    res.extend(gen(i + 1, x))
                for x in fs:
                    res.append((x, []))
            return res

        def merge_items(cur):
            # different lengths: summarise
            s0 = cur[0][0]
            for s, _ in cur[1:]:
                s0 = join_states(s0, s)
            if len({len(items) for _, items in cur}) == 1 and all(it[0] == "one" for _, items in cur for it in items):
                rows = zip(*(items for _, items in cur))
                return [(s0, [("one", [joinall(c) for c in zip(*(it[1] for it in row))]) for row in rows])]
            lens = []
            cols = [EMPTY] * len(elts)
            for _, items in cur:
                lo = hi = 0
                for it in items:
                    if it[0] == "one":
                        lo += 1
                        hi = None if hi is None else hi + 1
                        vs = it[1]
                    else:
                        lo += it[2]
                        hi = None if hi is None or it[3] is None else hi + it[3]
                        vs = it[1]
                    cols = [join(a, b) for a, b in zip(cols, vs)]
                lens.append((lo, hi))
            lo = min(x for x, _ in lens)
            hi = None if any(h is None for _, h in lens) else max(h for _, h in lens)
            if all(not items for _, items in cur):
                return [(s0, [])]
            return [(s0, [("rng", cols, lo, hi, True)])]

        for s, items in gen(0, st):
            for n, old in shadow.items():
                if old is None:
                    s.locals.pop(n, None)
                else:
                    s.locals[n] = old
            exact = all(it[0] == "one" for it in items)
            lo = hi = 0
            cols = [EMPTY] * len(elts)
            filt = False
            for it in items:
                if it[0] == "one":
                    lo += 1
                    hi = None if hi is None else hi + 1
                    vs = it[1]
                else:
                    lo += it[2]
                    hi = None if hi is None or it[3] is None else hi + it[3]
                    vs = it[1]
                    filt = filt or it[4]
                cols = [join(a, b) for a, b in zip(cols, vs)]
            if kind in ("list", "gen"):
                if exact:
                    o = ListO([it[1][0] for it in items], unord=unord[0])
                    if unord[0]:
                        o = o.but(exact=None, lo=lo, hi=hi)
                else:
                    o = ListO(None, cols[0], lo, hi, unord[0], sure=True)
                r = self.alloc(s, node, o, "comp")
                if keysrc is not None:
                    self.note_keys(r.addr, keysrc)
                out.append((s, V(r)))
            elif kind == "set":
                if exact and all(len(it[1][0]) == 1 and const_key(next(iter(it[1][0]))) for it in items):
                    o = SetO(frozenset(next(iter(it[1][0])) for it in items))
                else:
                    o = SetO(None, cols[0], min(lo, 1), hi)
                out.append((s, V(self.alloc(s, node, o, "comp"))))
            else:
                r = self.alloc(s, node, DictO({}), "comp")
                for it in items:
                    if it[0] == "one":
                        self.dict_put(s, r.addr, it[1][0], it[1][1])
                    else:
                        o = s.get(r.addr)
                        s.put(r.addr, o.but(many=True))
                        self.dict_put(s, r.addr, it[1][0], it[1][1])
                        s.put(r.addr, s.get(r.addr).but(many=False))
                out.append((s, V(r)))
        return self.merge_vals(out)

    # ---- iteration
    def exact_elems(self, st, v):
        if len(v) != 1:
            return None
        (a,) = v
        if isinstance(a, T):
            return list(a.elems)
        if isinstance(a, R):
            o = st.get(a.addr)
            if isinstance(o, ListO) and o.exact is not None:
                return list(o.exact)
        if isinstance(a, C) and isinstance(a.v, str) and len(a.v) < 40:
            return [Cv(x) for x in a.v]
        return None

    def summary_elems(self, st, v, node):
        """(elem, lo, hi) over all atoms."""
        elem = EMPTY
        lo, hi = None, 0
        for s, kind, data in self.iter_cases(st, v, node):
            if kind == "exact":
                e, l, h = joinall(data), len(data), len(data)
            else:
                e, l, h, _ = data
            elem = join(elem, e)
            lo = l if lo is None else min(lo, l or 0)
            hi = None if hi is None or h is None else max(hi, h)
        return elem, lo or 0, hi

    def iter_cases(self, st, v, node):
        """List of (state, "exact", [V]) / (state, "sum", (elem, lo, hi, addr))."""
        out = []
        atoms = list(v)
        bad = []
        for a in atoms:
            s = st.fork() if len(atoms) > 1 else st
            k = a.__class__
            if k is T:
                out.append((s, "exact", list(a.elems)))
            elif k is TN:
                out.append((s, "sum", (a.elem, 0, None, None)))
            elif k is R or k is W:
                o = s.get(a.addr)
                if isinstance(o, ListO):
                    if o.exact is not None:
                        out.append((s, "exact", list(o.exact)))
                    elif o.hi == 0:
                        out.append((s, "exact", []))
                    else:
                        out.append((s, "sum", (o.elem, o.lo, o.hi, a.addr)))
                elif isinstance(o, SetO):
                    if o.exact is not None:
                        if len(o.exact) == 0:
                            out.append((s, "exact", []))
                        else:
                            out.append((s, "sum", (frozenset(o.exact), len(o.exact), len(o.exact), None)))
                    elif o.hi == 0:
                        out.append((s, "exact", []))
                    else:
                        out.append((s, "sum", (o.elem, o.lo, o.hi, a.addr)))
                elif isinstance(o, DictO):
                    if not o.okey and all(not m for _, m in o.ent.values()):
                        out.append((s, "exact", [V(x) for x in o.ent]))
                    else:
                        out.append((s, "sum", (o.allkeys(), o.lo(), o.hi(), None)))
                elif isinstance(o, Obj) and o.cls in self.classes:
                    f = self.class_lookup(s, o.cls, "__iter__")
                    if f is not None:
                        for s2, r in self.call(s, V(*[BM(R(a.addr), x) for x in f]), [], {}, node):
                            out.extend(self.iter_cases(s2, r, node))
                    elif any(isinstance(x, Ext) and x.path not in _PLAIN_BASES for x in self.classes[o.cls].mro):
                        out.append((s, "sum", (VTOP, 0, None, None)))
                    else:
                        bad.append(a)
                        self.raise_exc(s, "TypeError", node, f"iteration over {_desc(a, s)}")
                else:
                    out.append((s, "sum", (VTOP, 0, None, None)))
            elif k is C:
                if a is UNBOUND:
                    out.append((s, "sum", (VTOP, 0, None, None)))
                elif isinstance(a.v, str):
                    out.append((s, "exact", [Cv(x) for x in a.v]))
                elif isinstance(a.v, bytes):
                    out.append((s, "exact", [Cv(x) for x in a.v]))
                else:
                    bad.append(a)
                    self.raise_exc(s, "TypeError", node, f"iteration over {_desc(a)}")
            elif k is S:
                out.append((s, "sum", (V(S(ml=1, mx=1, taint=a.taint)), 1 if a.ml else 0, None, None)))
            elif k is B:
                out.append((s, "sum", (V(I(0, 255)), 1 if a.ml else 0, None, None)))
            elif k is I or k is F:
                bad.append(a)
                self.raise_exc(s, "TypeError", node, f"iteration over {_desc(a)}")
            elif k is J:
                self.raise_exc(s, "TypeError", node, "iteration over arbitrary JSON value")
                out.append((s, "sum", (V(J()), 0, None, None)))
            elif k is Cls and self.classes[a.qual].enum:
                o = s.get(("cls", a.qual))
                out.append((s, "exact", [V(x) for v2, _ in o.attrs.values() for x in v2 if isinstance(x, EnumM)]))
            elif k is EI:
                out.extend(self.models.ei_iter(self, s, a, node))
            elif k in (Fn, BM, Partial, EnumM, Cls, WR):
                bad.append(a)
                self.raise_exc(s, "TypeError", node, f"iteration over {_desc(a)}")
            else:
                out.append((s, "sum", (VTOP, 0, None, None)))
        return out

    def unordered(self, st, v):
        """A reason when iterating v follows hash order and has more than one element."""
        for a in v:
            if isinstance(a, (R, W)):
                o = st.get(a.addr)
                if isinstance(o, SetO) and (o.hi is None or o.hi > 1):
                    if o.exact is not None and all(isinstance(x, C) and x.t in ("int", "bool") for x in o.exact):
                        continue
                    return "set"
                if isinstance(o, ListO) and o.unord and (o.hi is None or o.hi > 1):
                    return o.unord
        return None

    def check_order(self, st, v, node, how, where):
        if self.phase == "init":
            return
        r = self.unordered(st, v)
        if r:
            h = self.hooks.get("order")
            if h:
                h(self, st, node, how)

    # ------------------------------------------------------------------ paths
    def path_get(self, st, node):
        if isinstance(node, ast.Name):
            v = self.lookup(node.id, st)
            return v
        if isinstance(node, ast.NamedExpr):
            return self.lookup(node.target.id, st)
        if isinstance(node, ast.Attribute):
            b = self.path_get(st, node.value)
            if b is None or len(b) != 1:
                return None
            (a,) = b
            if isinstance(a, (R, W)):
                o = st.get(a.addr)
                if isinstance(o, Obj) and not o.many and node.attr in o.attrs and not o.attrs[node.attr][1]:
                    return o.attrs[node.attr][0]
            return None
        if isinstance(node, ast.Subscript):
            b = self.path_get(st, node.value)
            if b is None or len(b) != 1:
                return None
            (a,) = b
            if isinstance(node.slice, ast.Constant):
                key = C(node.slice.value)
            elif isinstance(node.slice, ast.Name):
                kv = self.lookup(node.slice.id, st)
                if kv is None or len(kv) != 1:
                    return None
                key = next(iter(kv))
            else:
                return None
            if isinstance(a, (R, W)):
                o = st.get(a.addr)
                if isinstance(o, DictO) and not o.many and key in o.ent:
                    return o.ent[key][0]
                if isinstance(o, ListO) and not o.many and o.exact is not None and isinstance(key, C) and isinstance(key.v, int):
                    if -len(o.exact) <= key.v < len(o.exact):
                        return o.exact[key.v]
            elif isinstance(a, T) and isinstance(key, C) and isinstance(key.v, int):
                if -len(a.elems) <= key.v < len(a.elems):
                    return a.elems[key.v]
            return None
        return None

    def path_set(self, st, node, v):
        """Refine the value stored at a path (narrowing only: not a program write)."""
        if isinstance(node, ast.NamedExpr):
            return self.path_set(st, node.target, v)
        if isinstance(node, ast.Name):
            f = self.frame
            if node.id[0] == "$":
                st.locals[node.id] = v
                return
            if f.kind == "fn" and node.id in f.fn.locals:
                if node.id in f.fn.captured and "$env" in st.locals:
                    (e,) = st.locals["$env"]
                    o = st.get(e.addr)
                    if not o.many:
                        st.put(e.addr, o.set(node.id, v))
                else:
                    st.locals[node.id] = v
            elif node.id in st.locals:
                st.locals[node.id] = v
            elif f.kind == "fn" and f.env is not None:
                env = f.env
                while env is not None:
                    o = st.get(env)
                    if o is None:
                        return
                    if node.id in o.attrs:
                        if not o.many:
                            st.put(env, o.set(node.id, v))
                        return
                    p = o.attrs.get("$parent")
                    env = next(iter(p[0])).addr if p else None
            return
        if isinstance(node, ast.Attribute):
            b = self.path_get(st, node.value)
            if b is None or len(b) != 1:
                return
            (a,) = b
            if isinstance(a, (R, W)):
                o = st.get(a.addr)
                if isinstance(o, Obj) and not o.many and node.attr in o.attrs:
                    if self.base is not None and a.addr in self.base and a.addr not in st.heap:
                        return
                    st.put(a.addr, o.set(node.attr, v))
            return
        if isinstance(node, ast.Subscript):
            b = self.path_get(st, node.value)
            if b is None or len(b) != 1:
                return
            (a,) = b
            if isinstance(node.slice, ast.Constant):
                key = C(node.slice.value)
            elif isinstance(node.slice, ast.Name):
                kv = self.lookup(node.slice.id, st)
                if kv is None or len(kv) != 1:
                    return
                key = next(iter(kv))
            else:
                return
            if isinstance(a, (R, W)):
                o = st.get(a.addr)
                if isinstance(o, DictO) and not o.many and key in o.ent:
                    ent = dict(o.ent)
                    ent[key] = (v, ent[key][1])
                    st.put(a.addr, o.but(ent=ent))
                elif isinstance(o, ListO) and not o.many and o.exact is not None and isinstance(key, C) and isinstance(key.v, int):
                    if -len(o.exact) <= key.v < len(o.exact):
                        ex = list(o.exact)
                        ex[key.v] = v
                        st.put(a.addr, ListO(ex, unord=o.unord))
            elif isinstance(a, T) and isinstance(key, C) and isinstance(key.v, int):
                if -len(a.elems) <= key.v < len(a.elems):
                    el = list(a.elems)
                    el[key.v] = v
                    self.path_set(st, node.value, V(T(el)))

    # ------------------------------------------------------------------ conditions
    def cond(self, node, st):
        """(states where the test is true, states where it is false)."""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, f = self.cond(node.operand, st)
            return f, t
        if isinstance(node, ast.BoolOp):
            isand = isinstance(node.op, ast.And)
            cur = [st]
            done = []
            for e in node.values:
                nxt = []
                for s in cur:
                    t, f = self.cond(e, s)
                    if isand:
                        done.extend(f)
                        nxt.extend(t)
                    else:
                        done.extend(t)
                        nxt.extend(f)
                cur = self.merge(nxt, 8)
            done = self.merge(done, 8)
            return (cur, done) if isand else (done, cur)
        if isinstance(node, ast.Compare):
            if len(node.ops) == 1:
                return self.cond_cmp(node.left, node.ops[0], node.comparators[0], st, node)
            # chained
            ts, fs = [st], []
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                nt = []
                for s in ts:
                    a, b = self.cond_cmp(left, op, right, s, node)
                    nt.extend(a)
                    fs.extend(b)
                ts = nt
                left = right
            return ts, fs
        if isinstance(node, ast.Call):
            r = self.models.cond_call(self, node, st)
            if r is not None:
                return r
            st_list = self.presplit(node, st)
        else:
            st_list = [st]
        ts, fs = [], []
        for st0 in st_list:
            for s, v in self.ev(node, st0):
                tv, fv, t, f = self.truth(s, v, node)
                if t is not None:
                    ts.append(t)
                if f is not None:
                    fs.append(f)
        return ts, fs

    def presplit(self, node, st):
        """Before calling a predicate, tell apart None from the rest in its arguments."""
        sts = [st]
        args = list(node.args) + [k.value for k in node.keywords]
        if isinstance(node.func, ast.Attribute):
            pass
        for a in args:
            if _is_path(a):
                nxt = []
                for s in sts:
                    v = self.path_get(s, a)
                    if v is not None and len(v) > 1 and NONE in v and len(sts) < 4:
                        s1 = s.fork()
                        self.path_set(s1, a, VNONE)
                        s2 = s.fork()
                        self.path_set(s2, a, v - VNONE)
                        if self.path_get(s1, a) == VNONE:
                            nxt.extend([s1, s2])
                            continue
                    nxt.append(s)
                sts = nxt
        return sts

    def truth(self, st, v, node):
        """(true values, false values, true state or None, false state or None)."""
        tv, fv = set(), set()
        lists = []
        for a in v:
            k = a.__class__
            if k is C:
                if a is UNBOUND:
                    self.lost("truth of a name that may be unbound", node)
                    tv.add(a)
                    fv.add(a)
                elif a.v:
                    tv.add(a)
                else:
                    fv.add(a)
            elif k is S:
                if a.ml:
                    tv.add(a)
                elif a.mx == 0:
                    fv.add(C(""))
                else:
                    tv.add(a.but(ml=1))
                    fv.add(C("") if a.cls is None else a.but(mx=0, ml=0))
            elif k is B:
                if a.ml:
                    tv.add(a)
                else:
                    tv.add(a.but(ml=1))
                    fv.add(C(b"") if not a.sym else a.but(ml=0))
            elif k is I:
                if a.lo is not None and a.lo > 0 or a.hi is not None and a.hi < 0:
                    tv.add(a)
                else:
                    tv.add(I(1 if a.lo == 0 else a.lo, a.hi, a.lin, a.big))
                    fv.add(C(0))
            elif k is F:
                tv.add(a)
                if not a.pos:
                    fv.add(C(0.0))
            elif k is T:
                (tv if a.elems else fv).add(a)
            elif k is R or k is W:
                o = st.get(a.addr)
                if isinstance(o, (ListO, SetO)):
                    if o.lo > 0:
                        tv.add(a)
                    elif o.hi == 0:
                        fv.add(a)
                    else:
                        tv.add(a)
                        fv.add(a)
                        lists.append(a)
                elif isinstance(o, DictO):
                    if o.lo() > 0:
                        tv.add(a)
                    elif o.hi() == 0:
                        fv.add(a)
                    else:
                        tv.add(a)
                        fv.add(a)
                        lists.append(a)
                elif isinstance(o, Obj) and o.cls in self.classes and (
                    self.class_lookup(st, o.cls, "__bool__") or self.class_lookup(st, o.cls, "__len__")
                ):
                    tv.add(a)
                    fv.add(a)
                elif isinstance(o, Obj) and o.cls in self.classes and not any(
                    isinstance(x, Ext) and x.path not in _PLAIN_BASES for x in self.classes[o.cls].mro
                ):
                    tv.add(a)
                elif isinstance(o, Obj) and o.cls in self.classes:
                    tv.add(a)
                    fv.add(a)
                elif isinstance(o, ExtO):
                    tv.add(a)
                else:
                    tv.add(a)
                    fv.add(a)
            elif k in (Fn, BM, Cls, Mod, Partial, EnumM, WR, XM, SM, CM, Prop):
                tv.add(a)
            elif k is EI:
                t, f = self.models.ei_truth(a)
                if t:
                    tv.add(a)
                if f:
                    fv.add(a)
            elif k is Ext:
                tv.add(a)
            else:
                if k is Top:
                    self.lost("truth of an unknown value", node)
                tv.add(a)
                fv.add(a)
        t = f = None
        if tv and fv:
            t = st.fork()
            f = st
        elif tv:
            t = st
        else:
            f = st
        tv = norm(frozenset(tv)) if tv else EMPTY
        fv = norm(frozenset(fv)) if fv else EMPTY
        if t is not None and f is not None:
            if _is_path(node):
                self.path_set(t, node, tv)
                self.path_set(f, node, fv)
            if len(v) <= 2:
                for a in lists:
                    o = t.get(a.addr)
                    if not o.many and not (self.base is not None and a.addr in self.base and a.addr not in t.heap):
                        t.put(a.addr, _nonempty(o))
                        f.put(a.addr, _empty(o))
        return tv, fv, t, f

    def cond_cmp(self, left, op, right, st, node):
        ts, fs = [], []
        # len(x) <op> n
        r = self.models.cond_len(self, left, op, right, st, node)
        if r is not None:
            return r
        for s, l in self.ev(left, st):
            for s2, rv in self.ev(right, s):
                a, b = self.cmp_vals(left, op, right, s2, l, rv, node)
                ts.extend(a)
                fs.extend(b)
        return ts, fs

    def cmp_vals(self, left, op, right, st, l, r, node):
        self.sites.add((self.qual(), self.sid(node), "cmp"))
        return self.models.compare(self, left, op, right, st, l, r, node)

    # ------------------------------------------------------------------ calls
    def ev_Call(self, node, st):
        out = []
        # super()
        if isinstance(node.func, ast.Name) and node.func.id == "super" and self.lookup("super", st) == V(Ext("builtins.super")):
            return self.ev_super(node, st)
        if isinstance(node.func, ast.Name) and node.func.id == "locals" and not node.args:
            return [(st, VTOP)]
        for s, fv in self.ev(node.func, st):
            pos = [a.value if isinstance(a, ast.Starred) else a for a in node.args]
            if len(pos) == 1 and isinstance(pos[0], ast.GeneratorExp) and len(pos[0].generators) == 1 and isinstance(
                    node.func, ast.Name) and node.func.id in ("any", "all", "set", "frozenset", "min", "max"):
                pos[0].any_order = True
            kws = [k.value for k in node.keywords]
            for s2, vs in self.ev_many(pos + kws, s):
                args = []
                star_unknown = None
                for a, v in zip(node.args, vs):
                    if isinstance(a, ast.Starred):
                        x = self.exact_elems(s2, v)
                        if x is None:
                            el, _, _ = self.summary_elems(s2, v, node)
                            star_unknown = el
                        else:
                            args.extend(x)
                    else:
                        args.append(v)
                kwargs = {}
                for k, v in zip(node.keywords, vs[len(node.args):]):
                    if k.arg is None:
                        self.spread(s2, v, kwargs, node)
                    else:
                        kwargs[k.arg] = (v, False)
                if star_unknown is not None:
                    kwargs["*"] = (star_unknown, True)
                out.extend(self.call(s2, fv, args, kwargs, node))
        return self.merge_vals(out) if len(out) > 1 else out

    def spread(self, st, v, kwargs, node):
        for a in v:
            if isinstance(a, (R, W)):
                o = st.get(a.addr)
                if isinstance(o, DictO):
                    for k, (x, m) in o.ent.items():
                        if isinstance(k, C) and isinstance(k.v, str):
                            if k.v in kwargs:
                                x = join(x, kwargs[k.v][0])
                            kwargs[k.v] = (x, m or len(v) > 1)
                    if o.okey:
                        kwargs["**"] = (o.oval, True)
                    continue
            if isinstance(a, C) and a.v is None:
                self.raise_exc(st, "TypeError", node, "** of None")
                continue
            kwargs["**"] = (VTOP, True)

    def ev_super(self, node, st):
        if node.args:
            out = []
            for s, vs in self.ev_many(node.args, st):
                ats = set()
                for c in vs[0]:
                    for x in (vs[1] if len(vs) > 1 else [TOP]):
                        if isinstance(c, Cls) and isinstance(x, (R, W, Cls)):
                            ats.add(Super(c.qual, R(x.addr) if isinstance(x, W) else x))
                        else:
                            ats.add(TOP)
                out.append((s, frozenset(ats)))
            return out
        fn = self.frame.fn
        while fn is not None and fn.outer is not None and fn.outer.cls == fn.cls and not fn.node.args.args:
            fn = fn.outer
        if fn is None or not fn.node.args.args + fn.node.args.posonlyargs:
            return [(st, VTOP)]
        first = (fn.node.args.posonlyargs + fn.node.args.args)[0].arg
        slf = self.lookup(first, st)
        ats = set()
        for x in slf or ():
            if isinstance(x, (R, Cls)):
                ats.add(Super(fn.cls, x))
            elif isinstance(x, W):
                ats.add(Super(fn.cls, R(x.addr)))
            else:
                ats.add(TOP)
        return [(st, frozenset(ats))]

    def call(self, st, fv, args, kwargs, node):
        atoms = list(fv)
        out = []
        for i, a in enumerate(atoms):
            s = st.fork() if len(atoms) > 1 else st
            out.extend(self.call_atom(s, a, args, kwargs, node))
        return self.merge_vals(out) if len(out) > 1 else out

    def call_atom(self, st, a, args, kwargs, node):
        self.sites.add((self.qual(), self.sid(node), "call"))
        k = a.__class__
        if k is Fn:
            return self.call_fn(st, a, args, kwargs, node)
        if k is BM:
            slf = a.slf
            if isinstance(a.fn, (Fn, Partial, Ext)):
                return self.call_atom(st, a.fn, [V(slf)] + list(args), kwargs, node)
            return self.call_atom(st, a.fn, args, kwargs, node)
        if k is Partial:
            kw = {n: (v, False) for n, v in a.kwargs}
            kw.update(kwargs)
            return self.call_atom(st, a.fn, list(a.args) + list(args), kw, node)
        if k is Cls:
            return self.instantiate(st, a, args, kwargs, node)
        if k is GA:
            return self.call_atom(st, a.origin, args, kwargs, node)
        if k is SM:
            return self.call_atom(st, a.fn, args, kwargs, node)
        if k is Ext:
            return self.call_ext(st, a, args, kwargs, node)
        if k is XM:
            return self.models.call_method(self, st, a, args, kwargs, node)
        if k is WR:
            if self.phase == "init":
                return [(st, V(R(a.addr)))]
            o = st.get(a.addr)
            return [(st, V(R(a.addr)))]
        if k is R or k is W:
            o = st.get(a.addr)
            if isinstance(o, Obj) and o.cls in self.classes:
                f = self.class_lookup(st, o.cls, "__call__")
                if f is not None:
                    out = []
                    for x in f:
                        out.extend(self.call_atom(st, BM(R(a.addr), x), args, kwargs, node))
                    return out
                if any(isinstance(x, Ext) and x.path not in _PLAIN_BASES for x in self.classes[o.cls].mro):
                    return [(st, VTOP)]
            if isinstance(o, (Unknown, ExtO)) or o is None:
                self.havoc_args(st, args, kwargs)
                return [(st, VTOP)]
            self.raise_exc(st, "TypeError", node, f"call of {_desc(a, st)}")
            return []
        if k is C or k is S or k is I or k is F or k is T or k is B or k is EnumM or k is J:
            if a is UNBOUND:
                return [(st, VTOP)]
            self.raise_exc(st, "TypeError", node, f"call of {_desc(a)}")
            return []
        if k is EI:
            return self.models.call_ei(self, st, a, args, kwargs, node)
        self.havoc_args(st, args, kwargs)
        return [(st, VTOP)]

    def degrade(self, why):
        """Something happened that the analysis can't follow: what it finds after that is not certain."""
        if self.phase == "lint":
            self.degraded.setdefault((self.qual() if self.frame else "?", why), True)

    def lost(self, what, node):
        """A decision in a scenario is open because the analysis, and not the scenario, left it open."""
        if self.scenario and self.phase == "lint":
            self.degraded.setdefault((self.qual() if self.frame else "?", f"{what} at line {getattr(node, 'lineno', 0)}"), True)

    def havoc_args(self, st, args, kwargs):
        for v in list(args) + [x for x, _ in kwargs.values()]:
            for a in v:
                if isinstance(a, R):
                    self.degrade("an unknown call may change its arguments")
                    o = st.get(a.addr)
                    if self.base is not None and a.addr in self.base and a.addr not in st.heap:
                        continue
                    if isinstance(o, ListO):
                        st.put(a.addr, ListO(None, join(o.elem, VTOP), 0, None, o.unord, o.many, False))
                    elif isinstance(o, DictO):
                        st.put(a.addr, DictO({k: (join(v, VTOP), True) for k, (v, m) in o.ent.items()},
                                             join(o.okey, VTOP), join(o.oval, VTOP), o.dflt, o.many, o.cls, False))

    def call_ext(self, st, a, args, kwargs, node):
        p = a.path
        h = self.hooks.get("ext")
        if h:
            h(self, st, p, args, kwargs, node)
        m = self.ext.get(p)
        if m is not None:
            return m(self, st, args, kwargs, node)
        return self.models.ext_default(self, st, p, args, kwargs, node)

    def instantiate(self, st, a, args, kwargs, node):
        ci = self.classes[a.qual]
        if ci.enum:
            out = []
            o = st.get(ci.addr)
            members = [x for v, _ in o.attrs.values() for x in v if isinstance(x, EnumM)]
            res = set()
            for v in args[0]:
                if isinstance(v, EnumM):
                    res.add(v)
                    continue
                hit = [m for m in members if V(v) == m.value]
                if hit:
                    res.update(hit)
                elif isinstance(v, C):
                    self.raise_exc(st, "ValueError", node, f"enum value {ci.name}")
                else:
                    self.raise_exc(st, "ValueError", node, f"enum value {ci.name}", weak=isinstance(v, Top))
                    res.update(members)
            return [(st, frozenset(res))] if res else []
        if ci.typeddict:
            r = self.alloc(st, node, DictO({C(k): v for k, v in kwargs.items()}), "td")
            return [(st, V(r))]
        # exceptions of the program
        # subclass of str?
        if any(isinstance(x, Ext) and x.path == "builtins.str" for x in ci.mro):
            out = []
            src = args[0] if args else Cv("")
            for s, v in self.to_str(st, src, node):
                ats = set()
                for x in v:
                    if isinstance(x, C):
                        ats.add(S(ml=len(x.v), mx=len(x.v), cls=a.qual))
                    elif isinstance(x, S):
                        ats.add(x.but(cls=a.qual))
                    else:
                        ats.add(x)
                out.append((s, norm(frozenset(ats))))
            return out
        h = self.hooks.get("new")
        new = Obj(a.qual, {})
        r = self.alloc(st, node, new, "o:" + a.qual)
        if h:
            h(self, st, a, r, args, kwargs, node)
        init = self.class_lookup(st, a.qual, "__init__")
        if init is not None:
            out = []
            for f in init:
                for s, _ in self.call_atom(st, BM(r, f), args, kwargs, node):
                    out.append((s, V(r)))
            h = self.hooks.get("made")
            if h:
                for s, v in out:
                    h(self, s, a, r, args, kwargs, node)
            return self.merge_vals(out, 4)
        if ci.dataclass:
            return self.models.dataclass_new(self, st, ci, r, args, kwargs, node)
        ext = [x for x in ci.mro if isinstance(x, Ext) and x.path not in _PLAIN_BASES]
        if (args or kwargs) and not ext:
            self.raise_exc(st, "TypeError", node, f"{ci.name}() takes no arguments")
            return []
        return [(st, V(r))]

    def bind(self, st, fi, a, args, kwargs, node):
        """Bind call arguments; returns locals dict or None after a TypeError."""
        fa = fi.node.args
        names = [x.arg for x in fa.posonlyargs + fa.args]
        loc = {}
        kwargs = dict(kwargs)
        starv = kwargs.pop("*", None)
        dstar = kwargs.pop("**", None)
        nd = len(a.defaults)
        args = list(args)
        extra = args[len(names):]
        for n, v in zip(names, args):
            loc[n] = v
        weak = starv is not None or dstar is not None
        if extra and not fa.vararg:
            self.raise_exc(st, "TypeError", node, f"too many arguments for {fi.qual}")
            return None
        if fa.vararg:
            loc[fa.vararg.arg] = V(T(extra)) if starv is None else V(TN(joinall(extra + [starv[0]])))
        rest = {}
        kwn = [x.arg for x in fa.kwonlyargs]
        for n, (v, m) in kwargs.items():
            if n in names or n in kwn:
                if n in loc and n not in kwn:
                    if not m:
                        self.raise_exc(st, "TypeError", node, f"multiple values for {n} of {fi.qual}")
                        return None
                    continue
                if m:
                    d = self.default_of(fi, a, n)
                    loc[n] = join(v, d) if d is not None else v
                else:
                    loc[n] = v
            else:
                rest[n] = (v, m)
        if rest and not fa.kwarg:
            if all(m for _, m in rest.values()):
                pass
            else:
                n = sorted(n for n, (_, m) in rest.items() if not m)[0]
                self.raise_exc(st, "TypeError", node, f"unexpected argument {n} for {fi.qual}")
                return None
        for i, n in enumerate(names):
            if n not in loc:
                d = self.default_of(fi, a, n)
                if d is not None:
                    loc[n] = d
                    if starv is not None:
                        loc[n] = join(d, starv[0])
                    if dstar is not None:
                        loc[n] = join(d, dstar[0])
                elif weak:
                    loc[n] = starv[0] if starv is not None else dstar[0]
                else:
                    self.raise_exc(st, "TypeError", node, f"missing argument {n} for {fi.qual}")
                    return None
        for n in kwn:
            if n not in loc:
                d = self.default_of(fi, a, n)
                if d is not None:
                    loc[n] = d
                elif weak:
                    loc[n] = VTOP
                else:
                    self.raise_exc(st, "TypeError", node, f"missing argument {n} for {fi.qual}")
                    return None
        if fa.kwarg:
            o = DictO({C(n): v for n, v in rest.items()})
            if dstar is not None:
                o = o.but(okey=VTOP, oval=dstar[0])
            loc[fa.kwarg.arg] = V(self.alloc(st, node, o, "kw"))
        return loc

    def default_of(self, fi, a, n):
        fa = fi.node.args
        names = [x.arg for x in fa.posonlyargs + fa.args]
        if n in names:
            i = names.index(n) - (len(names) - len(a.defaults))
            if 0 <= i < len(a.defaults):
                return a.defaults[i]
            return None
        for k, v in a.kwdefaults:
            if k == n:
                return v
        return None

    def call_fn(self, st, a, args, kwargs, node):
        fi = self.fns[a.fid]
        self.reached.add(fi.qual)
        if self.stackqual.count(fi.qual) >= (1 if fi.qual.endswith(".__call__") else self.rec_limit) or len(self.stackqual) > 60:
            # unrolled this far: deeper calls go through the same code on the same abstract objects
            self.bounded.add(fi.qual)
            return [(st, VTOP)]
        loc = self.bind(st, fi, a, args, kwargs, node)
        if loc is None:
            return []
        h = self.hooks.get("call")
        if h:
            r = h(self, st, fi, loc, node)
            if r is not None:
                return r
        if self.phase == "lint" and a.env is None and not fi.captured and not fi.is_gen and self.memo_on and fi.mod[0] != "$":
            r = self.pure_call(st, fi, a, loc, node)
            if r is not None:
                return r
        if self.phase == "lint" and self.memo_on and fi.mod[0] != "$" and fi.qual not in self.stackqual:
            return self.memo_call(st, fi, a, loc, node)
        return self.run_fn(st, fi, a, loc, node)

    def memo_call(self, st, fi, a, loc, node):
        """Remember a call by everything it looked at: replay what it did when none of that has changed."""
        ctx = self.ctx_of(self.frame.ctx, self.sid(node), fi.fid)
        try:
            key = (a, ctx, self.tag, self.memo_tag, frozenset(loc.items()))
        except TypeError:
            return self.run_fn(st, fi, a, loc, node)
        outer = REC[0]
        hint = self.alloc_hint.get((fi.fid, ctx, self.tag))
        if hint:
            mine = None
            for addr in hint:
                if addr in st.heap and st.references(addr):
                    if mine is None:
                        mine = set()
                        for v in loc.values():
                            refs_of(v, mine)
                    if addr not in mine:
                        self.age(st, addr, outer, outer is not None and addr in outer.alloc)
                        st.heap.pop(addr, None)
        entries = self.summaries.get(key)
        hit = None
        if entries:
            for ent in reversed(entries):
                ok = True
                for addr, obj in ent.deps:
                    o = st.peek(addr)
                    if o is not obj and (o is None or obj is None or o.__class__ is not obj.__class__ or not o.eq(obj)):
                        ok = False
                        break
                if ok:
                    for addr in ent.allocs:
                        if addr in st.heap and st.references(addr):
                            ok = False
                            break
                if ok:
                    hit = ent
                    break
        if hit is None:
            self.memo_miss += 1
            heap0 = dict(st.heap)
            up0, loc0, tr0 = st.up, st.locals, st.trace
            rec = Rec()
            REC[0] = rec
            saved = self.catchers
            c = Catcher([None], len(st.up))
            self.catchers = [c]
            try:
                res = self.run_fn(st, fi, a, dict(loc), node)
            finally:
                self.catchers = saved
                REC[0] = outer
            if outer is not None:
                outer.touch.update(rec.touch if not outer.alloc else rec.touch - outer.alloc)
                outer.alloc.update(rec.alloc if not outer.touch else rec.alloc - outer.touch)
                for addr in rec.ext:
                    old = addr + ("old",)
                    if addr in outer.alloc and (old not in heap0 or old in outer.alloc):
                        outer.alloc.add(old)
                    else:
                        outer.ext.add(addr)
            if rec.ext:
                mine = [x for x in rec.ext if x[2] == ctx and not x[1].startswith("o:")]
                if mine:
                    h = self.alloc_hint.setdefault((fi.fid, ctx, self.tag), [])
                    h.extend(sorted((x for x in mine if x not in h), key=repr))
            if rec.ext or any(s.trace != tr0 for s, _ in res):
                for (i, s2, exc, val, weak), (_, _, _, q, w, d, k) in zip(c.caught, c.reasons):
                    self.stackqual.append(fi.qual)
                    self.raise_exc(s2, exc, node, d, weak, val, at=(q, w, k))
                    self.stackqual.pop()
                return res
            base = st.base or {}
            deps = []
            for addr in rec.touch:
                o = heap0.get(addr)
                deps.append((addr, o if o is not None else base.get(addr)))
            hit = Summary()
            hit.deps = deps
            hit.allocs = list(rec.alloc)
            hit.outs = [(delta(heap0, s.heap), v) for s, v in res]
            hit.excs = [(delta(heap0, s2.heap), exc, val, weak, q, w, d, k)
                        for (_, s2, exc, val, weak), (_, _, _, q, w, d, k) in zip(c.caught, c.reasons)]
            if entries is None:
                entries = self.summaries[key] = []
            entries.append(hit)
            if len(entries) > 8:
                entries.pop(0)
            st = State(loc0, up0, heap0, st.base, tr0)
        else:
            self.memo_hit += 1
            if outer is not None:
                for addr, _ in hit.deps:
                    outer.add(addr)
                for addr in hit.allocs:
                    if addr not in outer.touch:
                        outer.alloc.add(addr)
        if hit.excs:
            self.stackqual.append(fi.qual)
            for d, exc, val, weak, q, w, desc, k in hit.excs:
                s2 = st
                if d and self.catchers:
                    s2 = st.fork()
                    s2.heap.update(d)
                self.raise_exc(s2, exc, node, desc, weak, val, at=(q, w, k))
            self.stackqual.pop()
        out = []
        n = len(hit.outs)
        for i, (d, v) in enumerate(hit.outs):
            s2 = st if i == n - 1 else st.fork()
            s2.heap.update(d)
            out.append((s2, v))
        return out

    def pure_call(self, st, fi, a, loc, node):
        """Calls whose arguments hold no references see nothing of the heap but module state: remember them."""
        if fi.fid in self.impure:
            return None
        acc = set()
        for v in loc.values():
            for x in v:
                if x.__class__ not in (C, S, I, F, B, Cls, EnumM):
                    atom_refs(x, acc)
                    if acc or x.__class__ in (XM, Partial, BM, Super, Fn, Top):
                        return None
        over = tuple(sorted((ad for ad in st.heap if ad in self.base), key=repr)) if len(st.heap) else ()
        okey = tuple(id(st.heap[ad]) for ad in over)
        try:
            key = (fi.fid, frozenset(loc.items()), okey)
        except TypeError:
            return None
        hit = self.memo.get(key)
        if hit is None:
            s = State(dict(st.locals), (), {ad: st.heap[ad] for ad in over}, st.base)
            saved = self.catchers
            c = Catcher([None], 0)
            self.catchers = [c]
            nsites = len(self.global_writes)
            try:
                res = self.run_fn(s, fi, a, dict(loc), node)
            finally:
                self.catchers = saved
            vals = []
            for s2, v in res:
                acc = set()
                refs_of(v, acc)
                if acc or any(s2.heap.get(ad) is not s.base.get(ad) and s2.heap.get(ad) is not st.heap.get(ad)
                              for ad in s2.heap if ad in self.base):
                    vals = None
                    break
                if v not in vals:
                    vals.append(v)
            excs = []
            for _, s2, exc, val, weak in c.caught:
                acc = set()
                refs_of(val, acc)
                if acc:
                    vals = None
                excs.append((exc, val, weak, s2.trace))
            if vals is None:
                self.impure.add(fi.fid)
                return None
            # keep the overlay objects alive: their identity is part of the key
            hit = (vals, c.reasons, [st.heap[ad] for ad in over])
            self.memo[key] = hit
        vals, reasons, _ = hit
        if reasons:
            self.stackqual.append(fi.qual)
            for exc, val, weak, qual, where, desc, stk in reasons:
                self.raise_exc(st, exc, node, desc, weak, val, at=(qual, where, stk))
            self.stackqual.pop()
        if not vals:
            return []
        if len(vals) == 1:
            return [(st, vals[0])]
        return [(st.fork(), v) for v in vals]

    def run_fn(self, st, fi, a, loc, node):
        saved_frame = self.frame
        saved_loops = self.loops
        self.loops = []
        ctx = self.ctx_of(saved_frame.ctx, self.sid(node), fi.fid)
        fr = Frame(fi, fi.mod, "fn", ctx, len(st.up) + 1, cls=fi.cls, env=a.env, call=node)
        st.up = st.up + (st.locals,)
        st.locals = loc
        self.frame = fr
        self.stackqual.append(fi.qual)
        if fi.captured:
            attrs = {}
            for n in fi.captured:
                if n in loc:
                    attrs[n] = (loc[n], False)
            if a.env is not None:
                attrs["$parent"] = (V(R(a.env)), False)
            r = self.alloc(st, fi.node, Obj(None, attrs), "env")
            st.locals["$env"] = V(r)
        elif a.env is not None and any(o.outer is fi for o in ()):
            pass
        if isinstance(fi.node, ast.Lambda):
            res = self.ev(fi.node.body, st)
        else:
            outs = self.exec_block(fi.node.body, [st])
            res = fr.returns + [(s, VNONE) for s in outs]
        if fi.is_gen:
            res2 = []
            for s, v in res:
                y = s.locals.get("$yield", EMPTY)
                lst = self.alloc(s, fi.node, ListO(None, y, 1 if "$yielded" in s.locals else 0, None, sure=False), "gen")
                res2.append((s, V(lst)))
            res = res2
        self.stackqual.pop()
        self.frame = saved_frame
        self.loops = saved_loops
        out = []
        for s, v in res:
            s.locals = dict(s.up[-1])
            s.up = s.up[:-1]
            self.gc_env(s)
            out.append((s, v))
        out = self.merge_vals(out)
        h = self.hooks.get("ret")
        if h:
            h(self, fi, out, node)
        return out

    def gc_env(self, s):
        pass


def _with_many(o, many):
    import copy

    p = copy.copy(o)
    p.many = many
    try:
        del p._refs
    except AttributeError:
        pass
    return p


def _nonempty(o):
    if isinstance(o, ListO):
        if o.exact is not None:
            return o
        return ListO(None, o.elem, max(1, o.lo), o.hi, o.unord, o.many, o.sure)
    if isinstance(o, SetO):
        if o.exact is not None:
            return o
        return SetO(None, o.elem, max(1, o.lo), o.hi, o.many, o.sure)
    if isinstance(o, DictO):
        live = [k for k, (v, m) in o.ent.items()]
        if len(live) == 1 and not o.okey:
            return o.but(ent={k: (v, False) for k, (v, m) in o.ent.items()})
    return o


def _empty(o):
    if isinstance(o, ListO):
        return ListO([], unord=o.unord)
    if isinstance(o, SetO):
        return SetO(frozenset())
    if isinstance(o, DictO):
        return DictO({}, dflt=o.dflt, cls=o.cls)
    return o


def _tail(inner, outer):
    """How much of a remembered call's stack lies inside the call that outer ends with."""
    f = outer[-1]
    for i in range(len(inner) - 1, -1, -1):
        if inner[i] == f:
            return len(inner) - i
    return 1


def _vsig(st, v):
    n = sig(st, v)
    if len(v) == 1:
        (a,) = v
        if isinstance(a, (Cls, EnumM)) or (isinstance(a, C) and a.t in ("str", "int") and len(str(a.v)) < 30):
            return (n, a)
        if isinstance(a, R):
            o = st.get(a.addr)
            if isinstance(o, ListO):
                return (n, "l0" if o.hi == 0 else "l1" if o.lo else "l")
            return (n, "r", a.addr[0] if isinstance(a.addr, (tuple, Addr)) else a.addr)
        if isinstance(a, T):
            return (n, "t", len(a.elems), tuple(sig(st, e) for e in a.elems))
    return n


def _is_path(node):
    if isinstance(node, ast.Name):
        return True
    if isinstance(node, ast.NamedExpr):
        return True
    if isinstance(node, ast.Attribute):
        return _is_path(node.value)
    if isinstance(node, ast.Subscript):
        return _is_path(node.value) and isinstance(node.slice, (ast.Constant, ast.Name))
    return False


def _is_boolish(e):
    return isinstance(e, ast.Compare) or (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)) or (
        isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("isinstance", "hasattr", "callable")
    )


def _is_suppress(node):
    for n in ast.walk(node.items[0].context_expr):
        if isinstance(n, (ast.Name, ast.Attribute)) and "suppress" in (getattr(n, "id", "") or getattr(n, "attr", "")):
            return True
    return False


def _as_load(t):
    import copy

    if isinstance(t, ast.Name):
        n = getattr(t, "_load", None)
        if n is None:
            n = ast.copy_location(ast.Name(t.id, ast.Load()), t)
            t._load = n
        return n
    if isinstance(t, ast.Attribute):
        n = getattr(t, "_load", None)
        if n is None:
            n = ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
            t._load = n
        return n
    n = getattr(t, "_load", None)
    if n is None:
        n = ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
        t._load = n
    return n


def _bytes_slice(a, ka):
    """Atoms for unknown bytes a, sliced: what is known of their length."""
    (t,) = ka.payload
    lo, hi, step = t.elems
    if step == VNONE and lo in (VNONE, V(C(0))) and len(hi) == 1:
        (h,) = hi
        if isinstance(h, C) and h.t == "NoneType":
            return [a]
        if isinstance(h, I) or isinstance(h, C) and h.t == "int":
            hl, hh = (h.lo, h.hi) if isinstance(h, I) else (h.v, h.v)
            if hl is not None and hl >= 0:
                mx = [x for x in (a.mx, hh) if x is not None]
                return [B(ml=None if a.ml is None else min(a.ml, hl), mx=min(mx) if mx else None, taint=a.taint)]
    return [B(taint=a.taint, mx=a.mx)]


def _const_slice(ka):
    (t,) = ka.payload
    vals = []
    for e in t.elems:
        if len(e) != 1:
            return None
        (x,) = e
        if not isinstance(x, C) or not (x.v is None or isinstance(x.v, int)):
            return None
        vals.append(x.v)
    return slice(*vals)


def _may_equal(a, b):
    """False when atoms certainly differ; True when certainly equal; None otherwise."""
    ka, kb = a.__class__, b.__class__
    if isinstance(a, Top) or isinstance(b, Top):
        return None
    if const_key(a) and const_key(b):
        if ka is C and kb is C:
            try:
                return bool(a.v == b.v)
            except Exception:
                return None
        if a == b:
            return True
        if isinstance(a, T) or isinstance(b, T):
            return _same_tuple(a, b) if isinstance(a, T) and isinstance(b, T) and len(a.elems) == len(b.elems) else False
        return False
    if ka is S and kb is C:
        a, b, ka, kb = b, a, kb, ka
    if kb is S and ka is C:
        if a.t != "str":
            return False
        if b.other:
            return False
        if b.sym and b.sym[0] == "ne" and a.v in b.sym[1]:
            return False
        if b.ci is not None and a.v.lower() != b.ci.lower():
            return False
        if b.ml is not None and len(a.v) < (b.ml or 0):
            return False
        if b.mx is not None and len(a.v) > b.mx:
            return False
        for h in b.has:
            if h not in a.v:
                return False
        return None
    if ka is S and kb is S:
        if a.ci is not None and b.ci is not None and a.ci.lower() != b.ci.lower():
            return False
        if a.other and (b.ci is not None) or b.other and (a.ci is not None):
            return False
        return None
    if ka is I or kb is I:
        ra, rb = [(x.lo, x.hi) if isinstance(x, I) else (x.v, x.v) if isinstance(x, C) and x.t in ("int", "bool") else None
                  for x in (a, b)]
        if ra and rb and (None not in (ra[0], rb[1]) and ra[0] > rb[1] or None not in (ra[1], rb[0]) and ra[1] < rb[0]):
            return False
    if ka is T and kb is T:
        return _same_tuple(a, b) if len(a.elems) == len(b.elems) else False
    for x, y in ((a, b), (b, a)):
        if x.__class__ is Fn and (const_key(y) or y.__class__ is Fn and y.fid != x.fid):
            return False
    ta, tb = _pytype(a), _pytype(b)
    if ta and tb and ta != tb:
        if {ta, tb} <= {"int", "float", "bool"}:
            return None
        return False
    return None


def _same_tuple(a, b):
    all_same = True
    for x, y in zip(a.elems, b.elems):
        rs = {_may_equal(p, q) for p in x for q in y}
        if rs == {False}:
            return False
        all_same = all_same and rs == {True} and len(x) == len(y) == 1
    return True if all_same else None


def _pytype(a):
    k = a.__class__
    if k is C:
        return a.t
    return {S: "str", B: "bytes", I: "int", F: "float", T: "tuple", TN: "tuple"}.get(k)


_PLAIN_BASES = {
    "builtins.object", "typing.Generic", "typing.Protocol", "abc.ABC", "typing_extensions.Protocol",
    "enum.Enum", "enum.IntEnum", "typing_extensions.Generic", "enum.StrEnum", "builtins.str",
    "typing.Any", "typing.NamedTuple", "threading.local", "_threading_local.local",
}


def _strip_b(p):
    return p[len("builtins."):] if p.startswith("builtins.") else p


def _desc(a, st=None):
    k = a.__class__
    if k is C:
        return "None" if a.v is None else a.t
    if k is S:
        return "str"
    if k is B:
        return "bytes"
    if k is I:
        return "int"
    if k is F:
        return "float"
    if k in (T, TN):
        return "tuple"
    if k is J:
        return "arbitrary JSON value"
    if k is EI:
        return str(a.typ)
    if k is Cls:
        return "class " + a.qual.rsplit(".", 1)[-1]
    if k is Mod:
        return "module " + a.name
    if k in (R, W) and st is not None:
        o = st.get(a.addr)
        if isinstance(o, Obj):
            return str(o.cls).rsplit(".", 1)[-1]
        return {ListO: "list", DictO: "dict", SetO: "set"}.get(o.__class__, "object")
    return k.__name__
