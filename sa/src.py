"""The package's source as syntax trees: modules, functions, classes, imports. Shared by the syntactic rules."""

from __future__ import annotations

import ast
import os


class Module:
    def __init__(self, root, rel, dotted, text):
        self.rel = rel
        self.dotted = dotted
        self.text = text
        self.tree = ast.parse(text, rel)
        self.imports = {}  # local name -> dotted origin
        pkg = dotted if rel.endswith("__init__.py") else dotted.rpartition(".")[0]
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = a.name
                    else:
                        self.imports.setdefault(a.name.split(".")[0], a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    up = pkg.split(".")
                    up = up[: len(up) - (n.level - 1)]
                    base = ".".join(up + ([n.module] if n.module else []))
                for a in n.names:
                    self.imports[a.asname or a.name] = base + "." + a.name

    def resolve(self, node):
        """Dotted origin of a Name/Attribute chain that starts at an import, else None."""
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if not isinstance(node, ast.Name) or node.id not in self.imports:
            return None
        return ".".join([self.imports[node.id]] + parts[::-1])


class Package:
    def __init__(self, root, package="httplint"):
        self.root = root
        self.name = package
        self.mods = {}
        top = os.path.join(root, package)
        for d, dirs, files in os.walk(top):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                rel = os.path.relpath(os.path.join(d, f), root)
                dotted = rel[:-3].replace(os.sep, ".")
                if dotted.endswith(".__init__"):
                    dotted = dotted[: -len(".__init__")]
                with open(os.path.join(d, f), encoding="utf-8") as fh:
                    self.mods[dotted] = Module(root, rel, dotted, fh.read())

    def functions(self):
        """(module, qualified name, node, class node or None) of every function, nested ones too."""
        for m in self.mods.values():
            yield from _functions(m, m.tree.body, m.dotted, None)

    def classes(self):
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    yield m, n

    def test_class(self, n):
        return any("Test" in ast.unparse(b) for b in n.bases)


def _functions(m, body, prefix, cls):
    for n in body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = prefix + "." + n.name
            yield m, q, n, cls
            yield from _functions(m, n.body, q, cls)
        elif isinstance(n, ast.ClassDef):
            yield from _functions(m, n.body, prefix + "." + n.name, n)
        else:
            for f in ("body", "orelse", "finalbody", "handlers"):
                for x in getattr(n, f, []) or []:
                    yield from _functions(m, [x] if isinstance(x, ast.stmt) else x.body, prefix, cls)


def same(a, b):
    return ast.dump(a) == ast.dump(b)


def min_count(body, hit):
    """Least number of statements satisfying `hit` on a path through body that ends normally or with continue;
    None if there's no such path (or a break leaves the loop early)."""
    n, cont = _mc(body, hit)
    xs = [x for x in [n] + cont if x is not None]
    return min(xs) if xs else None


def _mc(body, hit):
    cur = 0
    cont = []
    for s in body:
        if isinstance(s, ast.Continue):
            return None, cont + [cur]
        if isinstance(s, (ast.Return, ast.Raise, ast.Break)):
            return None, cont
        if isinstance(s, ast.If):
            a, ca = _mc(s.body, hit)
            b, cb = _mc(s.orelse, hit)
            cont += [cur + x for x in ca + cb]
            xs = [x for x in (a, b) if x is not None]
            if not xs:
                return None, cont
            cur += min(xs)
        elif isinstance(s, ast.With):
            a, ca = _mc(s.body, hit)
            cont += [cur + x for x in ca]
            if a is None:
                return None, cont
            cur += a
        elif isinstance(s, ast.Try):
            a, ca = _mc(list(s.body) + list(s.orelse), hit)
            cont += [cur + x for x in ca]
            xs = [a] if a is not None else []
            for h in s.handlers:
                b, cb = _mc(h.body, hit)
                cont += [cur + x for x in cb]
                if b is not None:
                    xs.append(b)
            if not xs:
                return None, cont
            cur += min(xs)
        elif isinstance(s, (ast.For, ast.While)):
            continue
        elif hit(s):
            cur += 1
    return cur, cont
