"""C18: what is found doesn't depend on the order in which the fields came."""

from check import Broken
from sa.atoms import Cls, R, W
from sa.jobs import Base

from .fields_table import fields
from .scen import Plan

DATE = "b'Mon, 04 Jul 2011 09:08:06 GMT'"
LATER = "b'Tue, 05 Jul 2011 09:08:06 GMT'"

# (what, kind of message, lines, must, never, keyword arguments)
TOGETHER = [
    ("Content-Length and Transfer-Encoding", "response",
     [("content-length", "b'5'"), ("transfer-encoding", "b'chunked'")], ["CL_AND_TE_PRESENT"], [], ""),
    ("Content-Length and Transfer-Encoding", "request",
     [("content-length", "b'5'"), ("transfer-encoding", "b'chunked'")], ["CL_AND_TE_PRESENT"], [], "method=b'POST'"),
    ("Content-Length alone", "response", [("content-length", "b'5'")], [], ["CL_AND_TE_PRESENT"], ""),
    ("Transfer-Encoding alone", "response", [("transfer-encoding", "b'chunked'")], [], ["CL_AND_TE_PRESENT"], ""),
    ("Last-Modified after Date", "response", [("date", DATE), ("last-modified", LATER)], ["LM_FUTURE"], ["LM_PRESENT"],
     "start=1700000000.0"),
    ("Last-Modified after Date", "response", [("date", DATE), ("last-modified", LATER)], ["LM_FUTURE"], ["LM_PRESENT"], ""),
    ("Last-Modified before Date", "response", [("date", LATER), ("last-modified", DATE)], ["LM_PRESENT"], ["LM_FUTURE"],
     "start=100000.0"),
    ("Age explains the difference of Date", "response", [("date", DATE), ("age", "b'86400'")],
     ["DATE_CORRECT"], ["DATE_INCORRECT", "AGE_PENALTY"], "start=1309856886.0"),
    ("Date was set again despite Age", "response", [("date", DATE), ("age", "b'86400'")],
     ["AGE_PENALTY"], ["DATE_INCORRECT", "DATE_CORRECT"], "start=1309770486.0"),
    ("Age explains nothing", "response", [("date", DATE), ("age", "b'0'")],
     ["DATE_INCORRECT"], ["AGE_PENALTY", "DATE_CORRECT"], "start=1309856886.0"),
    ("Date in time", "response", [("date", DATE), ("age", "b'0'")],
     ["DATE_CORRECT"], ["AGE_PENALTY", "DATE_INCORRECT"], "start=1309770486.0"),
    ("an opener policy only for reporting", "response",
     [("cross-origin-opener-policy-report-only", "b'same-origin'")], [], ["COOP_REPORT_ONLY_DUPLICATE"], ""),
    ("compressed with a dictionary, and Vary says so", "response",
     [("content-encoding", "b'dcb'"), ("vary", "b'Available-Dictionary'")], [], ["DICTIONARY_COMPRESSED_MISSING_VARY"], ""),
    ("compressed with a dictionary, and Vary doesn't say so", "response",
     [("content-encoding", "b'dcb'"), ("vary", "b'Accept'"), ("cache-control", "b'max-age=60'")],
     ["DICTIONARY_COMPRESSED_MISSING_VARY"], [], ""),
    ("Content-Length and Transfer-Encoding after a field of requests", "response",
     [("content-length", "b'5'"), ("transfer-encoding", "b'chunked'"), ("host", "any_bytes()")], ["CL_AND_TE_PRESENT"], [],
     ""),
    ("Content-Length and Transfer-Encoding after an empty field", "response",
     [("content-length", "b'5'"), ("transfer-encoding", "b'chunked'"), ("vary", "b''")], ["CL_AND_TE_PRESENT"], [], ""),
    ("a preflight request", "request", [("origin", "b'https://example.com'"), ("access-control-request-method", "b'PUT'")],
     ["CORS_PREFLIGHT_REQUEST"], ["CORS_PREFLIGHT_REQ_NO_ORIGIN", "CORS_PREFLIGHT_REQ_NO_METHOD",
                                  "CORS_PREFLIGHT_REQ_METHOD_WRONG"], "method=b'OPTIONS'"),
    ("a preflight request by PUT", "request",
     [("origin", "b'https://example.com'"), ("access-control-request-method", "b'PUT'")],
     ["CORS_PREFLIGHT_REQ_METHOD_WRONG"], ["CORS_PREFLIGHT_REQUEST", "CORS_PREFLIGHT_REQ_NO_ORIGIN"], "method=b'PUT'"),
    ("a preflight request without its method", "request",
     [("origin", "b'https://example.com'"), ("access-control-request-headers", "b'x-a'")],
     ["CORS_PREFLIGHT_REQ_NO_METHOD"], ["CORS_PREFLIGHT_REQUEST"], "method=b'OPTIONS'"),
    ("a preflight request without its origin", "request",
     [("access-control-request-method", "b'PUT'"), ("access-control-request-headers", "b'x-a'")],
     ["CORS_PREFLIGHT_REQ_NO_ORIGIN"], ["CORS_PREFLIGHT_REQUEST", "CORS_PREFLIGHT_REQ_NO_METHOD"], "method=b'OPTIONS'"),
]


class Watch:
    """Reads and writes of a field's rules while its section is still being processed."""

    def __init__(self, L, section, handler, message):
        self.e = L.e
        self.section = section
        self.handler = handler
        self.message = message
        self.subs = {}
        self.current = None
        self.reads = {}  # (reader, attribute) -> place
        self.stores = {}  # attribute of the message -> {class}
        self.loads = {}
        self.owner = {}
        L.extra_call = self.call
        L.e.on_attr = self.read
        L.e.hooks["setattr"] = self.write
        L.extra_result = self

    def __reduce__(self):
        return dict, ([("reads", self.reads), ("stores", self.stores), ("loads", self.loads)],)

    def call(self, e, st, fi, loc, node):
        if fi.qual == self.section + ".process":
            for a in loc.get(next(iter(loc)), ()):
                if isinstance(a, (R, W)):
                    self.current = a.addr
        return None

    def rule_frame(self):
        """The class of the field whose rule is running while the section is being processed, and the rule."""
        stack = self.e.stackqual
        i = len(stack) - 1
        p = self.section + ".process"
        while i >= 0 and stack[i] != p:
            i -= 1
        if i < 0:
            return None
        for q in stack[i + 1:]:
            c, _, m = q.rpartition(".")
            if c not in self.owner:
                self.owner[c] = self.isa(c, self.handler)
            if self.owner[c]:
                return c, m, stack[-1]
        return None

    def read(self, e, st, a, o, attr, node):
        if o.cls == self.section:
            if attr not in ("parsed", "handlers", "text", "size") or a.addr != self.current:
                return
            f = self.rule_frame()
            if f is None:
                return
            self.reads.setdefault((f[2], f[1], attr), e.where(node))

            return
        ci = e.classes.get(o.cls)
        if ci is None or self.current is None:
            return
        if attr == "value" and self.isa(o.cls, self.handler):
            f = self.rule_frame()
            if f and not self.isa(o.cls, f[0]) and not self.isa(f[0], o.cls):
                self.reads.setdefault((f[2], f[1], f"the value of {o.cls.rsplit('.', 1)[-1]}"), e.where(node))
        elif attr not in ("headers", "trailers", "notes") and self.isa(o.cls, self.message):
            f = self.rule_frame()
            if f and attr in o.attrs:
                self.loads.setdefault(attr, {})[f[0]] = f[2]

    def write(self, e, st, a, o, attr, v, node):
        if self.current is not None and o.cls in e.classes and self.isa(o.cls, self.message):
            f = self.rule_frame()
            if f:
                self.stores.setdefault(attr, {})[f[0]] = f[2]

    def isa(self, cls, base):
        k = cls, base
        if k not in self.subs:
            ci = self.e.classes.get(cls)
            self.subs[k] = ci is not None and any(isinstance(x, Cls) and x.qual == base for x in ci.mro)
        return self.subs[k]


def run(ctx):
    base = Base(ctx.repo)
    e = base.L.e
    section = [q for q in e.classes if q.rsplit(".", 1)[-1] == "FieldSection"]
    handler = [q for q in e.classes if q.rsplit(".", 1)[-1] == "HttpField"]
    message = [q for q in e.classes if q.rsplit(".", 1)[-1] == "HttpMessageLinter"]
    if len(section) != 1 or len(handler) != 1 or len(message) != 1:
        raise Broken("FieldSection, HttpField or HttpMessageLinter is gone")
    p = Plan(ctx)
    for what, side, lines, must, never, kw in TOGETHER:
        items = [f"(ci_bytes({n!r}), {v})" for n, v in lines]
        orders = [items, items[::-1]] if len(items) == 2 else (
            [[items[i] for i in o] for o in ((0, 1, 2), (2, 1, 0), (1, 2, 0), (0, 2, 1), (2, 0, 1), (1, 0, 2))]
            if len(items) == 3 else [items])
        for i, order in enumerate(orders):
            ls = "[OTHER(), " + ", OTHER(), ".join(order) + ", OTHER()]"
            p.add(f"{what} ({side}{' with ' + kw if kw else ''}, order {i + 1})", f"{what}: the same is said in any order",
                  [f"m = {side}({ls}{', ' + kw if kw else ''})"], must=must, never=never)
    for f in fields():
        side = f.side()
        line = f"(ci_bytes({f.low!r}), any_bytes())"
        for sec in ("headers", "trailers"):
            ls = f"[OTHER(), {line}, OTHER(), {line}]"
            p.add(f"{f.name} among the {sec}", "rules of a field don't look at fields that may come later",
                  [f"m = {side}({ls})" if sec == "headers" else f"m = {side}(trailers={ls})"])

    def setup(L, job):
        Watch(L, section[0], handler[0], message[0])

    done = p.run(base, setup=setup)
    reads, stores, loads = {}, {}, {}
    for r in p.results.values():
        if r["ok"] and r.get("extra"):
            reads.update(r["extra"]["reads"])
            for k, into in (("stores", stores), ("loads", loads)):
                for attr, fs in r["extra"][k].items():
                    into.setdefault(attr, {}).update(fs)
    for attr, ws in sorted(stores.items()):
        for c, fn in sorted(ws.items()):
            for c2, fn2 in sorted(loads.get(attr, {}).items()):
                if c2 != c:
                    ctx.report(f"{fn2} reads what {fn} stores in {attr}",
                               f"{fn}, a rule of one field, stores {attr} of the message while the section is processed, and "
                               f"{fn2}, a rule of another, reads it: what it finds depends on which field came first.")
    n = 0
    for (fn, rule, attr), where in sorted(reads.items()):
        n += 1
        early = rule in ("handle_input", "pre_check", "parse", "__init__")
        if attr == "parsed" or early or attr.startswith("the value"):
            ctx.report(f"{fn} reads {attr} of its section early",
                       f"{fn} ({where}) looks at the {attr} of the section that is still being processed: what it finds there "
                       f"depends on whether the other field came before.")
        else:
            ctx.unknown(f"{fn} reads {attr} while its section is processed", "which fields there are is complete by then")
    ctx.ob(True, len(fields()) * 2)
    ctx.level = "other"
    ctx.coverage.update(
        scenarios=done, orders=len(p.items), stored=sorted(stores), early_reads=[f"{f} {r} {a}" for f, r, a in sorted(reads)], samples=p.samples(),
        rule="no rule of a field reads other fields of its section before the section is complete; fields with a meaning "
             "together are judged alike in every order",
        explanation="every field is run through the abstract interpreter with any value, and each read of the fields of a "
                    "section during its processing is recorded with the rule it is made for; fields that have a meaning "
                    "together are run in every order")
