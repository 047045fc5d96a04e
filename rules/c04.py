"""C04: the same input gives the same notes, in the same order, in every process."""

import ast

from check import Broken
from sa import runs, src
from sa.state import ListO, SetO
from .c01 import ASSUMPTIONS

# Calls whose result differs from one process, moment or machine to another.
AMBIENT = (
    "time.time", "time.time_ns", "time.monotonic", "time.perf_counter", "time.localtime", "time.gmtime", "time.ctime",
    "time.strftime", "time.process_time", "datetime.datetime.now", "datetime.datetime.utcnow",
    "datetime.datetime.today", "datetime.date.today", "random.", "secrets.", "uuid.", "os.urandom", "os.getpid",
    "os.environ", "os.getenv", "os.times", "socket.gethostname", "platform.", "locale.", "tempfile.", "threading.get_ident",
    "builtins.id", "builtins.hash", "email.utils.localtime", "email.utils.mktime_tz",
    "time.mktime", "datetime.datetime.fromtimestamp", "datetime.date.fromtimestamp", "getpass.", "os.getcwd",
    "email.utils.formatdate", "email.utils.make_msgid",
)

# number formatting by the locale the application chose for its process
LOCALE_OK = ("locale", "locale.format_string", "locale.str", "locale.currency")


def insensitive(loop):
    """Does the outcome of the loop not depend on the order of its items?"""
    consts = {}

    def expr_ok(v):
        return isinstance(v, ast.Constant)

    def stmt(s):
        if isinstance(s, (ast.Pass, ast.Continue)):
            return True
        if isinstance(s, ast.If):
            return pure(s.test) and all(map(stmt, s.body + s.orelse))
        if isinstance(s, (ast.Return, ast.Break)):
            v = getattr(s, "value", None)
            if v is None or expr_ok(v):
                consts.setdefault("return", set()).add(ast.dump(v) if v is not None else None)
                return True
            return False
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if s.value is None:
                return True
            for t in ts:
                if not (isinstance(t, (ast.Name, ast.Attribute)) and expr_ok(s.value)):
                    return False
                consts.setdefault(ast.dump(t), set()).add(ast.dump(s.value))
            return True
        if isinstance(s, ast.AugAssign):
            return isinstance(s.op, (ast.Add, ast.BitOr, ast.BitAnd)) and expr_ok(s.value) and isinstance(
                s.value.value, (int, bool))
        if isinstance(s, ast.Expr):
            v = s.value
            if isinstance(v, ast.Constant):
                return True
            return (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute)
                    and v.func.attr in ("add", "discard", "update") and len(v.args) == 1 and not v.keywords
                    and not isinstance(v.args[0], ast.Starred) and all(map(pure, v.args)))
        return False

    ok = all(map(stmt, loop.body)) and all(map(stmt, loop.orelse))
    ends = any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(loop))
    if ok and any(len(v) > 1 for v in consts.values()):
        return False
    if ok and ends and any(isinstance(x, (ast.AugAssign, ast.Expr)) for b in loop.body for x in ast.walk(b)
                           if isinstance(x, ast.stmt) and not (isinstance(x, ast.Expr)
                                                                and isinstance(x.value, ast.Constant))):
        return False
    return ok


def pure(e):
    return not any(isinstance(x, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)) for x in ast.walk(e))


def setup(L, job):
    ev = {}
    L.extra_result = ev

    def seen(e, st, node, how):
        if how == "for" and isinstance(node, (ast.For, ast.AsyncFor)) and insensitive(node):
            return
        where = f"{e.qual()} ({e.where(node)})"
        what = node.iter if isinstance(node, ast.For) else node
        ev.setdefault((e.qual(), how, ast.unparse(what)[:100]), (where, list(e.stackqual)[-4:]))

    L.e.hooks["order"] = seen
    base_call = L.on_call

    def on_call(e, st, fi, loc, node):
        if fi.qual == L.add_qual:
            for v in loc.get("vrs", ()):
                o = st.get(v.addr) if hasattr(v, "addr") else None
                for k, (x, _) in (getattr(o, "ent", None) or {}).items():
                    if e.unordered(st, x):
                        ev.setdefault((e.qual(), "note variable", str(getattr(k, "v", k))),
                                      (e.qual(), list(e.stackqual)[-4:]))
        return base_call(e, st, fi, loc, node)

    L.e.hooks["call"] = on_call
    L.record = lambda st, loc, node: None  # rendering is not at issue here


def ambient(ctx, pkg):
    n = 0
    for m in pkg.mods.values():
        if m.dotted.split(".")[-1] in ("cli", "__main__", "tests"):
            continue
        skip = set()
        for fn in ast.walk(m.tree):
            if isinstance(fn, ast.FunctionDef) and fn.name == "__repr__":
                skip.update(id(x) for x in ast.walk(fn))
            if isinstance(fn, ast.ClassDef) and pkg.test_class(fn):
                skip.update(id(x) for x in ast.walk(fn))
            if isinstance(fn, ast.Call) and (m.resolve(fn.func) or "").endswith(".fromtimestamp") and (
                    len(fn.args) > 1 or any(k.arg == "tz" for k in fn.keywords)):
                skip.add(id(fn.func))  # the time zone is given
        local = {x.id for x in ast.walk(m.tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for x in ast.walk(m.tree):
            if id(x) in skip:
                continue
            name = None
            if isinstance(x, (ast.Attribute, ast.Name)) and isinstance(x.ctx, ast.Load):
                name = m.resolve(x)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("id", "hash") and (
                    x.func.id not in m.imports and x.func.id not in local):
                name = "builtins." + x.func.id
            if name is None:
                continue
            n += 1
            if name in LOCALE_OK:
                continue
            for a in AMBIENT:
                if name == a or (a.endswith(".") and name.startswith(a)) or name.startswith(a + "."):
                    ctx.report(f"{m.dotted} uses {name}",
                               f"{m.rel}:{x.lineno}: {name} depends on when, where or in which process it runs, so "
                               f"notes or verdicts derived from it differ between runs over the same message")
                    ctx.ob(False)
    ctx.ob(n=n)
    ctx.coverage["imported_names_resolved"] = n
    if n < 500:
        raise Broken("hardly any imported names resolved")


def run(ctx):
    pkg = src.Package(ctx.repo)
    ambient(ctx, pkg)
    base = runs.make_base(ctx)
    jobs = runs.plan(base, ctx.tier)
    ok, bad = runs.execute(ctx, base, jobs, setup=setup)
    if len(ok) < len(jobs) * 0.5:
        raise Broken(f"only {len(ok)} of {len(jobs)} scenarios could be analysed: "
                     + next(iter(bad.values()))["error"][:300])
    found = {}
    for n, r in ok.items():
        ctx.ob(not r["extra"])
        for k, v in r["extra"].items():
            if r["degraded"]:
                ctx.unknown("uncertain: " + " ".join(k), n)
            else:
                found.setdefault(k, (v, []))[1].append(n)
    for (q, how, what), ((where, stack), names) in sorted(found.items()):
        ctx.report(f"order of a set in {q}: {how} {what}",
                   f"{where}: `{what}` ({how}) takes the items of a set in hash order, which differs from one process "
                   f"to the next.\ncall path: {' > '.join(stack)}\nfields in the message: {', '.join(sorted(names)[:6])}")
    ctx.coverage["explanation"] = (
        "abstract interpretation of whole linting histories tracking which values are sets (or lists made from one), "
        "with every use of such a value's order as a site (loops with order-dependent bodies, join, indexing, pop, "
        "unpacking, conversion to text, note variables); and every reference in the package to a source of values "
        "that vary by process, time or machine")
    ctx.coverage["rule"] = "no observable result takes a set's iteration order, and none uses an ambient source"
    ctx.assumptions += ASSUMPTIONS
    ctx.assumptions.append("dictionaries keep insertion order; dictionaries built by a comprehension over a set are not "
                           "followed further")
