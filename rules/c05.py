"""C05: linting one message leaves nothing behind that another could see."""

import ast

from check import Broken
from sa import runs, src
from sa.atoms import R, W
from sa.state import DictO, ListO, Obj, SetO
from .c01 import ASSUMPTIONS

CACHES = "the cache of message catalogues, keyed by locale"


def owners(e, base_heap):
    """address of a shared container -> the module variable or class attribute that holds it"""
    out = {}
    todo = []
    for addr, o in base_heap.items():
        if addr and addr[0] in ("mod", "cls") and hasattr(o, "attrs"):
            for n, x in o.attrs.items():
                for a in x[0]:
                    if isinstance(a, (R, W)):
                        todo.append((a.addr, f"{addr[1]}.{n}"))
    while todo:
        addr, name = todo.pop()
        if addr in out or addr[0] in ("mod", "cls"):
            continue
        out[addr] = name
        o = base_heap.get(addr)
        vals = []
        if isinstance(o, ListO):
            vals = [o.elem] + list(o.exact or ())
        elif isinstance(o, DictO):
            vals = [v for v, _ in o.ent.values()] + [o.oval]
        elif isinstance(o, Obj):
            vals = [v for v, _ in o.attrs.values()]
        for v in vals:
            for a in v or ():
                if isinstance(a, (R, W)):
                    todo.append((a.addr, name + "[…]"))
    return out


def setup(L, job):
    L.record = lambda st, loc, node: None
    L.e.global_writes.clear()
    own = owners(L.e, L.e.base)
    L.extra_result = {}
    plain = L.e.note_global_write

    def write(addr, st):
        e = L.e
        name = ".".join(map(str, addr[1:2])) if addr[0] in ("mod", "cls") else own.get(addr)
        L.extra_result.setdefault((e.qual(), name or "an object made on import"), list(e.stackqual)[-5:])
        plain(addr, st)

    L.e.note_global_write = write


def syntactic(ctx, pkg):
    """`global` rebinding and mutable defaults that are changed, in functions that run after import."""
    n = 0
    for m, q, fn, cls in pkg.functions():
        n += 1
        for s in ast.walk(fn):
            if isinstance(s, ast.Global):
                ctx.report(f"{q} rebinds {', '.join(s.names)}",
                           f"{m.rel}:{s.lineno}: {q} rebinds the module variable(s) {', '.join(s.names)}, which every "
                           "linter in the process shares")
                ctx.ob(False)
        args = fn.args
        for a, d in list(zip((args.posonlyargs + args.args)[::-1], args.defaults[::-1])) + [
                (a, d) for a, d in zip(args.kwonlyargs, args.kw_defaults) if d is not None]:
            if not (isinstance(d, (ast.List, ast.Dict, ast.Set)) or (
                    isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ("list", "dict", "set"))):
                continue
            how = changed(fn, a.arg)
            if how:
                ctx.ob(False)
                ctx.report(f"{q} changes the default of {a.arg}",
                           f"{m.rel}:{how.lineno}: {q} changes {a.arg}, whose default value is one object shared by "
                           "every call")
    ctx.ob(n=n)
    ctx.coverage["functions_scanned"] = n
    if n < 200:
        raise Broken("hardly any functions found")


GROW = {"append", "add", "extend", "insert", "update", "setdefault", "pop", "remove", "clear", "discard", "popitem",
        "sort", "reverse"}


def changed(fn, name):
    for s in ast.walk(fn):
        if (isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr in GROW
                and isinstance(s.func.value, ast.Name) and s.func.value.id == name):
            return s
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.Delete)):
            ts = s.targets if not isinstance(s, ast.AugAssign) else [s.target]
            for t in ts:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name:
                    return s
                if isinstance(s, ast.AugAssign) and isinstance(t, ast.Name) and t.id == name:
                    return s
    return None


def run(ctx):
    pkg = src.Package(ctx.repo)
    syntactic(ctx, pkg)
    renderer(ctx, pkg)
    base = runs.make_base(ctx)
    jobs = runs.plan(base, ctx.tier)
    ok, bad = runs.execute(ctx, base, jobs, setup=setup)
    if len(ok) < len(jobs) * 0.5:
        raise Broken(f"only {len(ok)} of {len(jobs)} scenarios could be analysed: "
                     + next(iter(bad.values()))["error"][:300])
    found = {}
    for n, r in ok.items():
        for k, v in r["extra"].items():
            found.setdefault(k, (v, []))[1].append(n)
    allowed = 0
    local = thread_locals(pkg)
    for (q, what), (stack, names) in sorted(found.items()):
        if what in local:
            allowed += 1
            ctx.ob()
            continue
        if catalogue_cache(pkg, q):
            allowed += 1
            ctx.ob()
            continue
        ctx.ob(False)
        ctx.report(f"{q} changes {what}",
                   f"{q} changes {what}, which exists since import and which every linter in the process shares.\n"
                   f"call path: {' > '.join(stack)}\nfields in the message: {', '.join(sorted(names)[:6])}")
    ctx.coverage["allowed"] = f"{allowed} write(s) to {CACHES}"
    ctx.coverage["explanation"] = (
        "abstract interpretation of whole linting histories from the heap as it is after import: every write to an "
        "object of that heap (module variables, class attributes, containers and objects reachable from them) is a "
        "site; plus every `global` statement and every mutable default argument of the package")
    ctx.coverage["rule"] = "linting writes only to objects made for the message at hand"
    ctx.assumptions += ASSUMPTIONS


def thread_locals(pkg):
    """Module variables that hold one value per thread."""
    kinds = set()
    for m, n in pkg.classes():
        if any(m.resolve(b) == "threading.local" for b in n.bases):
            kinds.add(m.dotted + "." + n.name)
    out = set()
    for m in pkg.mods.values():
        for s in m.tree.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, ast.Call):
                f = s.value.func
                n = m.resolve(f) or (m.dotted + "." + f.id if isinstance(f, ast.Name) else None)
                if n == "threading.local" or n in kinds:
                    for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                        if isinstance(t, ast.Name):
                            out.add(m.dotted + "." + t.id)
    return out


def renderer(ctx, pkg):
    """A Markdown renderer that is kept keeps link definitions and footnotes of the last text until it is reset."""
    n = 0
    for m, q, fn, cls in pkg.functions():
        fresh = set()
        for s in ast.walk(fn):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and clean(m, s.value, fresh):
                fresh.add(s.targets[0].id)
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and (
                    s.value.func.attr == "reset") and isinstance(s.value.func.value, ast.Name):
                fresh.add(s.value.func.value.id)
        for c in ast.walk(fn):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "convert":
                n += 1
                ok = clean(m, c.func.value, fresh)
                ctx.ob(ok)
                if not ok:
                    ctx.report(f"{q} renders without resetting the renderer",
                               f"{m.rel}:{c.lineno}: {ast.unparse(c.func)}() on a renderer that is kept from one text to "
                               "the next and isn't reset first: definitions in one note's text would act in another's")
    ctx.coverage["render_sites"] = n
    if not n:
        raise Broken("no call of a Markdown renderer found")


def clean(m, x, fresh):
    if isinstance(x, ast.Name):
        return x.id in fresh
    if isinstance(x, ast.Call):
        if isinstance(x.func, ast.Attribute) and x.func.attr == "reset":
            return True
        return (m.resolve(x.func) or "").split(".")[-1] == "Markdown"
    return False


def catalogue_cache(pkg, q):
    """The function stores what Translations.load() gives for a locale under that locale."""
    for m, name, fn, cls in pkg.functions():
        if name != q:
            continue
        loads = [c for c in ast.walk(fn) if isinstance(c, ast.Call)
                 and (m.resolve(c.func) or "").endswith("support.Translations.load")]
        stores = [s for s in ast.walk(fn) if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Subscript)]
        if len(stores) != 1 or not loads:
            return False
        key = ast.dump(stores[0].targets[0].slice)
        return any(key == ast.dump(x) for c in loads for a in c.args for x in ast.walk(a))
    return False
