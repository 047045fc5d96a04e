"""ABNF (RFC 5234, with the list rule of RFC 9110) turned into patterns whose languages sa.rx compares."""

from __future__ import annotations

import re


class AbnfError(Exception):
    pass


TOK = re.compile(
    r"""\s*(?:(?P<rep>\d*\*\d*|\d+(?=[A-Za-z("%\[])|\d*\#\d*)|(?P<str>"[^"]*")|(?P<num>%[xd][0-9A-Fa-f.\-]+)|
        (?P<name>[A-Za-z][A-Za-z0-9\-]*)|(?P<p>[/()\[\]]))""", re.X)


def read(text):
    """{rule name in lower case: source}"""
    rules = {}
    for line in text.splitlines():
        line = line.rstrip()
        if not line or line.lstrip().startswith(";"):
            continue
        name, eq, body = line.partition("=")
        if not eq:
            raise AbnfError(line)
        name = name.strip().lower()
        if name in rules:
            raise AbnfError(f"{name} defined twice")
        rules[name] = body.strip()
    return rules


class Grammar:
    def __init__(self, text):
        self.rules = read(text)
        self.trees = {n: self._parse(s) for n, s in self.rules.items()}
        self.memo = {}

    # ------------------------------------------------------------ parsing
    def _parse(self, s):
        toks = []
        i = 0
        while i < len(s):
            m = TOK.match(s, i)
            if not m or m.end() == i:
                if s[i:].strip() == "":
                    break
                raise AbnfError(f"{s!r} at {s[i:i + 20]!r}")
            k = m.lastgroup
            toks.append((k, m.group(k)))
            i = m.end()
        self.toks = toks
        self.i = 0
        t = self._alt()
        if self.i != len(toks):
            raise AbnfError(f"{s!r}: left {toks[self.i:]}")
        return t

    def _peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else (None, None)

    def _alt(self):
        alts = [self._cat()]
        while self._peek() == ("p", "/"):
            self.i += 1
            alts.append(self._cat())
        return alts[0] if len(alts) == 1 else ("alt", alts)

    def _cat(self):
        items = []
        while True:
            k, v = self._peek()
            if k is None or (k == "p" and v in "/)]"):
                break
            items.append(self._rep())
        return items[0] if len(items) == 1 else ("cat", items)

    def _rep(self):
        k, v = self._peek()
        if k == "rep":
            self.i += 1
            e = self._elem()
            if "#" in v:
                lo, hi = v.split("#")
                return ("list", e, int(lo or 0))
            if "*" in v:
                lo, hi = v.split("*")
                return ("rep", e, int(lo or 0), int(hi) if hi else None)
            return ("rep", e, int(v), int(v))
        return self._elem()

    def _elem(self):
        k, v = self._peek()
        self.i += 1
        if k == "str":
            return ("str", v[1:-1])
        if k == "num":
            base = 16 if v[1] == "x" else 10
            body = v[2:]
            if "-" in body:
                a, b = body.split("-")
                return ("range", int(a, base), int(b, base))
            return ("codes", [int(x, base) for x in body.split(".")])
        if k == "name":
            return ("ref", v.lower())
        if (k, v) == ("p", "("):
            t = self._alt()
            if self._peek() != ("p", ")"):
                raise AbnfError("missing )")
            self.i += 1
            return t
        if (k, v) == ("p", "["):
            t = self._alt()
            if self._peek() != ("p", "]"):
                raise AbnfError("missing ]")
            self.i += 1
            return ("rep", t, 0, 1)
        raise AbnfError(f"unexpected {v!r}")

    # ------------------------------------------------------------ patterns
    def pattern(self, rule, depth=1):
        """A pattern (no flags needed) for the rule; rules that contain themselves nest at most `depth` times.
        None when nothing derives from it."""
        return self._ref(rule.lower(), {}, depth)

    def _ref(self, name, open_, depth):
        if name not in self.trees:
            raise AbnfError(f"no rule {name}")
        n = open_.get(name, 0)
        if n >= depth:
            return None
        key = (name, tuple(sorted((k, v) for k, v in open_.items() if k in self._reach(name))), depth)
        if key not in self.memo:
            self.memo[key] = self._pat(self.trees[name], {**open_, name: n + 1} if self._recursive(name) else open_,
                                       depth)
        return self.memo[key]

    def _reach(self, name):
        m = self.__dict__.setdefault("_r", {})
        if name not in m:
            seen = set()
            todo = [name]
            while todo:
                for r in self._refs(self.trees[todo.pop()]):
                    if r not in seen:
                        seen.add(r)
                        todo.append(r)
            m[name] = seen
        return m[name]

    def _recursive(self, name):
        return name in self._reach(name)

    def _refs(self, t):
        if t[0] == "ref":
            if t[1] not in self.trees:
                raise AbnfError(f"no rule {t[1]}")
            yield t[1]
        elif t[0] in ("alt", "cat"):
            for x in t[1]:
                yield from self._refs(x)
        elif t[0] in ("rep", "list"):
            yield from self._refs(t[1])

    def _pat(self, t, open_, depth):
        k = t[0]
        if k == "str":
            return "".join("(?i:%s)" % c if c.isalpha() else "\\x%02x" % ord(c) for c in t[1])
        if k == "range":
            return "[\\x%02x-\\x%02x]" % t[1:]
        if k == "codes":
            return "".join("\\x%02x" % c for c in t[1])
        if k == "ref":
            return self._ref(t[1], open_, depth)
        if k == "alt":
            ps = [p for p in (self._pat(x, open_, depth) for x in t[1]) if p is not None]
            return "(?:" + "|".join(ps) + ")" if ps else None
        if k == "cat":
            ps = [self._pat(x, open_, depth) for x in t[1]]
            return None if any(p is None for p in ps) else "".join(ps)
        if k == "rep":
            p = self._pat(t[1], open_, depth)
            if p is None:
                return "" if t[2] == 0 else None
            hi = "" if t[3] is None else t[3]
            return "(?:%s){%d,%s}" % (p, t[2], hi)
        if k == "list":
            p = self._pat(t[1], open_, depth)
            if p is None:
                return "" if t[2] == 0 else None
            sep = "[ \\t]*,[ \\t]*"
            one = "(?:%s)(?:%s(?:%s)){%d,}" % (p, sep, p, max(t[2] - 1, 0))
            return "(?:%s)" % one + ("?" if t[2] == 0 else "")
        raise AbnfError(k)
