"""C06: linting has no effects outside the linter: no files, network, processes, code from the message, output."""

import ast

from check import Broken
from sa import src

# What the package may use of modules that can reach outside. Everything else of theirs is a violation.
REACH = {
    "os": {"os.path.join", "os.path.dirname", "os.path.abspath", "os.path.basename", "os.path.exists", "os.path.isdir",
           "os.path.splitext", "os.sep", "os.path"},
    "sys": {"sys.modules", "sys.version_info", "sys.maxsize", "sys.intern"},
    "urllib": None,
}
DENY = ("subprocess", "socket", "ssl", "http.client", "http.server", "urllib.request", "urllib.robotparser", "shutil",
        "pathlib", "tempfile", "ftplib", "smtplib", "telnetlib", "poplib", "imaplib", "asyncio", "select", "selectors",
        "multiprocessing", "concurrent", "signal", "ctypes", "mmap", "fcntl", "pty", "webbrowser", "sqlite3", "dbm",
        "shelve", "pickle", "marshal", "requests", "httpx", "aiohttp", "importlib", "runpy", "code", "codeop",
        "glob", "fileinput", "logging", "syslog", "resource", "gc", "atexit", "posix", "io.open", "io.FileIO",
        "codecs.open", "gzip.open", "gzip.GzipFile", "bz2.open", "lzma.open", "zipfile", "tarfile", "threading.Thread",
        "_thread", "builtins", "linecache", "traceback.print_exc", "warnings.warn", "markdown.markdownFromFile")
BUILTINS = {"open", "exec", "eval", "compile", "__import__", "print", "input", "breakpoint", "exit", "quit"}
EXCEPT = ("cli", "__main__", "tests")
LOADERS = ("babel.support.Translations.load",)


def run(ctx):
    pkg = src.Package(ctx.repo)
    names = calls = 0
    mods = 0
    loads = []
    for m in pkg.mods.values():
        if set(m.dotted.split(".")) & set(EXCEPT):
            continue
        mods += 1
        inside = set()  # nodes in functions
        script = set()  # nodes of `if __name__ == "__main__":`
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                inside.update(id(y) for y in ast.walk(x))
            if isinstance(x, ast.If) and isinstance(x.test, ast.Compare) and "__name__" in ast.unparse(x.test):
                script.update(id(y) for b in x.body for y in ast.walk(b))
        bound = {x.id for x in ast.walk(m.tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {
            x.name for x in ast.walk(m.tree) if isinstance(x, (ast.FunctionDef, ast.ClassDef))} | set(m.imports)
        skip = set()
        for x in ast.walk(m.tree):
            if id(x) in script:
                continue
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    names += 1
                    base = "" if isinstance(x, ast.Import) else (x.module or "") + "."
                    if id(x) in inside or (base + a.name).split(".")[0] != "importlib":
                        verdict(ctx, m, base + a.name, f"imports {base + a.name}", x.lineno)
            if isinstance(x, ast.Attribute) and id(x) not in skip:
                y = x
                while isinstance(y, ast.Attribute):
                    y = y.value
                    skip.add(id(y))
                name = m.resolve(x)
                if name and (id(x) in inside or not name.startswith("importlib.")):
                    names += 1
                    verdict(ctx, m, name, f"uses {name}", x.lineno)
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in BUILTINS and x.id not in bound:
                ctx.ob(False)
                ctx.report(f"{m.dotted} uses {x.id}()", f"{m.rel}:{x.lineno}: {x.id}() reaches outside the linter")
            if isinstance(x, ast.Call):
                calls += 1
                n = m.resolve(x.func)
                if n in LOADERS:
                    loads.append((m, x))
    for m, c in loads:
        # the directory must be the package's own, the locale isn't from a message
        ok = not any(isinstance(x, ast.Attribute) and x.attr in ("message", "headers", "value") for x in ast.walk(c))
        ctx.ob(ok)
        if not ok:
            ctx.report(f"{m.dotted} loads a catalogue named by a message", f"{m.rel}:{c.lineno}")
    ctx.ob(n=names + calls)
    if mods < 50 or names < 300:
        raise Broken("hardly any modules or imported names found")
    ctx.coverage.update(modules=mods, imported_names_resolved=names, calls=calls, catalogue_loads=len(loads))
    ctx.coverage["explanation"] = (
        "who-may-use over every module of the package but the command line, the test helpers and code run only as a script: every import, every "
        "dotted use of an imported name and every use of a builtin that can reach files, the network, processes, "
        "output or run text as code; the exceptions are loading the package's own message catalogues and, on import, its own "
        "modules")
    ctx.coverage["rule"] = "no linting module refers to an operation with effects outside the process's memory"
    ctx.assumptions.append("third-party libraries called (babel, markdown, markupsafe, http_sf, chardet, brotli) have no "
                           "effects beyond the catalogue files Babel reads")


def verdict(ctx, m, name, what, line):
    top = name.split(".")[0]
    bad = any(name == d or name.startswith(d + ".") for d in DENY)
    allowed = REACH.get(top)
    if allowed is not None and not bad and name != top and not any(
            name == a or name.startswith(a + ".") for a in allowed):
        bad = True
    if bad:
        ctx.ob(False)
        ctx.report(f"{m.dotted} {what}", f"{m.rel}:{line}: {name} can reach outside the linter (files, network, "
                                         "processes, output, code)")
