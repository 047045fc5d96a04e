"""C12: the grammar a field's values are held to is the one its specification gives."""

import ast
import os
import re

from check import Broken
from sa import abnf, rx, runs
from sa.atoms import C, Cls, R
from sa.jobs import run_jobs
from sa.state import Obj

HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = re.X | re.I

# field name -> (rule, how deviations are told). "syntax": a note on bad syntax; "own": a note of the field's own.
# For list fields the rule is that of one member.
FIELDS = {
    "accept": ("accept-member", "syntax"),
    "accept-encoding": ("accept-encoding-member", "syntax"),
    "accept-language": ("accept-language-member", "syntax"),
    "accept-patch": ("media-type", "syntax"),
    "accept-post": ("media-range", "syntax"),
    "accept-ranges": ("range-unit", "syntax"),
    "access-control-allow-credentials": ("acac", "syntax"),
    "access-control-allow-headers": ("token", "syntax"),
    "access-control-allow-methods": ("token", "syntax"),
    "access-control-allow-origin": ("acao", "syntax"),
    "access-control-expose-headers": ("token", "syntax"),
    "access-control-max-age": ("delay-seconds", "own"),
    "access-control-request-headers": ("token", "syntax"),
    "access-control-request-method": ("token", "syntax"),
    "age": ("delta-seconds", "own"),
    "allow": ("method", "syntax"),
    "alt-svc": ("alt-svc-value", "syntax"),
    "authentication-info": ("auth-param", "syntax"),
    "authorization": ("credentials-lenient", "syntax"),
    "cache-control": ("cache-directive", "syntax"),
    "clear-site-data": ("quoted-string", "syntax"),
    "connection": ("connection-option", "syntax"),
    "content-disposition": ("content-disposition", "syntax"),
    "content-encoding": ("content-coding", "syntax"),
    "content-language": ("language-tag", "syntax"),
    "content-length": ("content-length", "own"),
    "content-location": ("content-location", "syntax"),
    "content-md5": ("content-md5", "syntax"),
    "content-range": ("content-range", "own"),
    "content-security-policy": ("content-security-policy", "syntax"),
    "content-security-policy-report-only": ("content-security-policy", "syntax"),
    "content-type": ("content-type", "syntax"),
    "etag": ("etag", "syntax"),
    "expect": ("expectation", "syntax"),
    "from": ("mailbox", "syntax"),
    "host": ("host", "syntax"),
    "if-match": ("if-match", "syntax"),
    "if-modified-since": ("http-date", "syntax"),
    "if-none-match": ("if-none-match", "syntax"),
    "if-range": ("if-range", "syntax"),
    "if-unmodified-since": ("http-date", "syntax"),
    "keep-alive": ("parameter", "syntax"),
    "link": ("link-value", "syntax"),
    "location": ("uri-reference", "syntax"),
    "max-forwards": ("max-forwards", "syntax"),
    "pragma": ("pragma-directive", "syntax"),
    "proxy-authenticate": ("challenge-member", "syntax"),
    "proxy-authentication-info": ("auth-param", "syntax"),
    "proxy-authorization": ("credentials-lenient", "syntax"),
    "range": ("ranges-specifier", "own"),
    "referer": ("referer", "syntax"),
    "referrer-policy": ("token", "syntax"),
    "retry-after": ("retry-after", "syntax"),
    "server": ("server", "syntax"),
    "server-timing": ("server-timing-metric", "syntax"),
    "strict-transport-security": ("strict-transport-security", "syntax"),
    "te": ("t-codings", "syntax"),
    "trailer": ("field-name", "syntax"),
    "transfer-encoding": ("transfer-coding", "syntax"),
    "upgrade": ("protocol", "syntax"),
    "user-agent": ("user-agent", "syntax"),
    "vary": ("vary-member", "syntax"),
    "via": ("via-member", "syntax"),
    "warning": ("warning-value", "syntax"),
    "www-authenticate": ("challenge-member", "syntax"),
    "x-content-type-options": ("nosniff", "syntax"),
    "x-frame-options": ("x-frame-options", "syntax"),
    # dates, which are parsed by one function for all
    "date": ("http-date", "date"),
    "expires": ("http-date", "date"),
    "last-modified": ("http-date", "date"),
    "sunset": ("http-date", "date"),
    # structured fields (RFC 9651), by top-level type
    "accept-ch": ("list", "sf"),
    "accept-query": ("list", "sf"),
    "available-dictionary": ("item", "sf"),
    "cache-group-invalidation": ("list", "sf"),
    "cache-groups": ("list", "sf"),
    "cache-status": ("list", "sf"),
    "cdn-cache-control": ("dictionary", "sf"),
    "cross-origin-embedder-policy": ("item", "sf"),
    "cross-origin-embedder-policy-report-only": ("item", "sf"),
    "cross-origin-opener-policy": ("item", "sf"),
    "cross-origin-opener-policy-report-only": ("item", "sf"),
    "deprecation": ("item", "sf"),
    "permissions-policy": ("dictionary", "sf"),
    "proxy-status": ("list", "sf"),
    "reporting-endpoints": ("dictionary", "sf"),
    "speculation-rules": ("list", "sf"),
    "use-as-dictionary": ("dictionary", "sf"),
}

EXTRA = """
accept-member = media-range [ weight ]
accept-encoding-member = codings [ weight ]
accept-language-member = language-range [ weight ]
acac = %x74.72.75.65
challenge-member = credentials-lenient / auth-param
nosniff = "nosniff"
vary-member = "*" / field-name
via-member = received-protocol RWS received-by [ RWS comment ]
"""

# constants of the grammar modules whose rule goes by another name
OTHER = {
    "rfc3986.host": "uri-host",
    "rfc5987.language": "language-tag",
    "rfc9110.credentials": "credentials-lenient",
    "rfc9110.challenge": "credentials-lenient",
    "rfc9110.Authorization": "credentials-lenient",
    "rfc9110.Proxy_Authorization": "credentials-lenient",
    "rfc9110.WWW_Authenticate": "credentials-lenient",
    "rfc9110.Proxy_Authenticate": "credentials-lenient",
    "rfc9112.trailer_part": "trailer-section",
    "rfc9112.transfer_extension": "transfer-coding",
    "rfc9112.authority_form": None,  # the older, wider form of RFC 7230
    "rfc9112.request_target": None,
    "rfc9112.request_line": None,
    "rfc9112.start_line": None,
    "rfc9651.parameter": None,
    "rfc5322.ccontent": None,
    "rfc9651.key": "sf-key",
    "rfc9651.param_key": "sf-key",
    "rfc9651.member_key": "sf-key",
    "rfc9651.param_value": "bare-item",
    "rfc9651.parameters": "sf-parameters",
    "rfc9651.member_value": "list-member",
}
for _n in ("quoted_pair", "ctext", "comment", "quoted_string"):
    OTHER["rfc5322." + _n] = "mail-" + _n.replace("_", "-")

# what may stand in a field line: HTAB, SP, VCHAR, obs-text
IN_FIELD = r"[\t\x20-\x7e\x80-\xff]*"


# rules whose letters count as they are
EXACT = {"acac"}


def fold(rule):
    return 0 if rule in EXACT else re.I


class Grammars:
    def __init__(self, verif):
        with open(os.path.join(verif, "spec", "core.abnf"), encoding="utf-8") as f:
            self.g = abnf.Grammar(f.read() + EXTRA)
        self.memo = {}
        self.field = rx.compile_dfa(IN_FIELD)

    def depth(self, dfa, rule):
        """How deep comments nest in the given language, when the rule has comments."""
        rec = [r for r in self.g._reach(rule) | {rule} if self.g._recursive(r)]
        if not rec:
            return 1
        for k in (1, 2, 3, 4, 5, 6):
            d = self.dfa(rule, k)
            if rx.not_included(d, dfa) is not None:
                return max(k - 1, 1)
        return 6

    def dfa(self, rule, depth=1):
        k = (rule, depth)
        if k not in self.memo:
            self.memo[k] = rx.compile_dfa(self.g.pattern(rule, depth), fold(rule), cap=20000)
        return self.memo[k]


def const(st, v):
    """A pattern or list rule the package computes when imported: (kind, text)."""
    if len(v) == 1:
        a = next(iter(v))
        if isinstance(a, C) and isinstance(a.v, str):
            return "pattern", a.v
        if isinstance(a, C) and a.v is False:
            return "none", None
        if isinstance(a, R):
            o = st.get(a.addr)
            if isinstance(o, Obj):
                el = o.attrs.get("element")
                if el is not None:
                    k = const(st, el[0])
                    if k and k[0] == "pattern":
                        return "list", k[1]
    return None


def compare(gr, a, rule, within):
    """(extra, missing): a text the pattern takes and the rule does not, and the reverse."""
    depth = gr.depth(a, rule)
    d = gr.dfa(rule, depth)
    if not within:
        return rx.not_included(a, d), rx.not_included(d, a)
    inside = gr.field

    def both(x, y):
        p = rx.compile_pair(x, inside)
        return rx.not_included(p, y)

    return both(a, d), both(d, a)


def wrapped(gr, rule, depth):
    k = ("ws", rule, depth)
    if k not in gr.memo:
        gr.memo[k] = rx.compile_dfa(r"\s*(?:%s)\s*" % gr.g.pattern(rule, depth), fold(rule), cap=20000)
    return gr.memo[k]


def quiet(L, job):
    L.render = False


def run(ctx):
    verif = os.path.dirname(HERE)
    gr = Grammars(verif)
    base = runs.make_base(ctx)
    e, st = base.L.e, base.L.imported
    # ---- the grammar modules
    compared = []
    mods = sorted(m for m in e.mods if m.startswith(e.package + ".syntax."))
    for mod in mods:
        short = mod.rsplit(".", 1)[-1]
        with open(os.path.join(ctx.repo, *mod.split(".")) + ".py", encoding="utf-8") as f:
            tree = ast.parse(f.read())
        own = {t.id for s in tree.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name)}
        o = st.get(("mod", mod))
        for n in sorted(own):
            if n.startswith("__") or n not in o.attrs:
                continue
            name = f"{short}.{n}"
            rule = OTHER.get(name, n.strip("_").replace("_", "-").lower())
            if rule is None or rule not in gr.g.trees:
                continue
            k = const(st, o.attrs[n][0])
            if not k or k[0] == "none":
                ctx.unknown(f"the grammar {name} is not a constant")
                continue
            tree_ = gr.g.trees[rule]
            if k[0] == "list":
                if tree_[0] == "list":
                    rule = rule + "-member-of-list"
                    gr.g.trees.setdefault(rule, tree_[1])
                elif tree_[0] == "ref" and gr.g.trees[tree_[1]][0] == "list":
                    rule = rule + "-member-of-list"
                    gr.g.trees.setdefault(rule, gr.g.trees[tree_[1]][1])
            try:
                a = rx.compile_dfa(k[1], FLAGS, cap=20000)
                extra, missing = compare(gr, a, rule, False)
            except (rx.TooBig, rx.Unsupported) as why:
                ctx.unknown(f"the grammar {name} can't be compared:", type(why).__name__)
                continue
            compared.append(name)
            ctx.ob(extra is None and missing is None)
            tell(ctx, f"grammar {name}", f"{name} in {mod}", rule, extra, missing)
    if len(compared) < 60:
        raise Broken(f"only {len(compared)} grammar constants found in {e.package}.syntax")
    # ---- the fields
    jobs = []
    for f in sorted(FIELDS):
        jobs += [(f"{k}:{f}", k, {"NAMES": repr([f]), "$paths": 4}) for k in ("hres", "hreq")]
    res = run_jobs(base, jobs, 300, setup=quiet)
    held = []
    memo = {}
    for f, (rule, how) in sorted(FIELDS.items()):
        rs = [res[f"{k}:{f}"] for k in ("hres", "hreq")]
        if not all(r["ok"] for r in rs):
            ctx.unknown(f"{f}: no answer:", str([r.get("error") for r in rs])[:200])
            continue
        notes = {n[0] for r in rs for n in r["notes"]}
        if "RESPONSE_HDR_IN_REQUEST" not in notes and "FIELD_NAME_BAD_SYNTAX" not in notes:
            raise Broken("notes of the scenarios are not recorded")
        if any(r["degraded"] for r in rs):
            ctx.unknown(f"{f}: not followed everywhere:", str([r["degraded"] for r in rs])[:200])
            continue
        if how == "sf":
            types = {t for r in rs for t in r["ext_args"].get("http_sf.parse", ())}
            ctx.ob(types == {repr(rule)})
            if not types:
                ctx.report(f"field {f}: not parsed as a structured field",
                           f"{f} is a structured field, but its value is never given to the parser of those")
            elif "?" in types:
                ctx.unknown(f"{f}: structured type not known")
            elif repr(rule) not in types:
                ctx.report(f"field {f}: parsed as the wrong structured type",
                           f"{f} is a {rule}; it is parsed as {', '.join(sorted(types))}")
            want = {"STRUCTURED_FIELD_PARSE_ERROR"}
        else:
            uses = {k for r in rs for k, v in r["regex_uses"].items() if any(w for _, w in v)}
            best = None
            for pat, flags, fn in sorted(uses, key=lambda u: (len(u[0]), u[0])):
                if fn not in ("match", "fullmatch"):
                    continue
                v = verdict(gr, memo, pat, flags, fn, rule)
                if v == (None, None):
                    best = v
                    break
                if v and v != "other":
                    best = best or v
            ctx.ob(best == (None, None))
            if best is None:
                # nothing close: is there a pattern declared at all?
                decl = declared(e, st, f)
                if decl and decl[0] == "pattern" or decl and decl[0] == "list":
                    try:
                        a = rx.compile_dfa(decl[1], FLAGS, cap=20000)
                        extra, missing = compare(gr, a, rule, True)
                    except (rx.TooBig, rx.Unsupported) as why:
                        ctx.unknown(f"{f}: declared grammar can't be compared:", type(why).__name__)
                        continue
                    if extra is None and missing is None:
                        ctx.report(f"field {f}: its grammar is not applied",
                                   f"{f} declares the right grammar, but no value of the field is matched against all "
                                   f"of it (white space around it allowed)")
                    else:
                        tell(ctx, f"field {f}", f"the grammar of {f}", rule, extra, missing)
                elif decl and decl[0] == "none" or not uses:
                    ctx.report(f"field {f}: no grammar", f"no value of {f} is matched against the rule {rule}")
                else:
                    ctx.unknown(f"{f}: declared grammar is not a constant")
            want = {"syntax": {"BAD_SYNTAX", "BAD_SYNTAX_DETAILED"}, "own": None, "date": {"BAD_DATE_SYNTAX"}}[how]
        if want is not None:
            ctx.ob(bool(notes & want))
            if not notes & want:
                ctx.report(f"field {f}: deviations are not reported",
                           f"no value of {f} ever leads to a note on its syntax ({' or '.join(sorted(want))})")
        held.append(f)
    if len(held) < len(FIELDS) * 0.7:
        raise Broken(f"only {len(held)} of {len(FIELDS)} fields could be analysed")
    # ---- names and request targets
    r = [x for x in res.values() if x["ok"]]
    for what, rule, in (("field names", "token"),):
        ok = any(w and verdict(gr, memo, p, fl, fn, rule) == (None, None)
                 for x in r[:4] for (p, fl, fn), v in x["regex_uses"].items() for _, w in v)
        ctx.ob(ok)
        if not ok:
            ctx.report(f"{what}: not held to {rule}", f"no pattern applied to {what} has the language of {rule}")
    q = [res[k] for k in res if k.startswith("hreq:") and res[k]["ok"]][:1]
    for x in q:
        ok = any(verdict(gr, memo, p, fl, fn, "uri") == (None, None) for (p, fl, fn) in x["regex_uses"])
        ctx.ob(ok)
        if not ok:
            ctx.report("request target: not held to URI", "no pattern applied to the request's URI has the language of "
                       "URI (RFC 3986)")
    ctx.level = "proof"
    ctx.coverage.update(
        grammar_constants=len(compared), fields=len(held), structured=sum(1 for v in FIELDS.values() if v[1] == "sf"),
        samples=[f"{f}: {FIELDS[f][0]}" for f in held[:20]] + compared[:20],
        rule="every grammar constant and every field's grammar has the language of its rule in spec/core.abnf; each "
             "field's value is matched against all of it, and deviations lead to a note",
        explanation=(
            "the patterns the package computes when it is imported, and those that the abstract interpreter sees "
            "applied to each field's value, are compiled to automata and compared with the automata of the RFCs' ABNF: "
            "language equality over all strings (fields: over all strings of field characters, case folded)"))
    ctx.assumptions += [
        "spec/core.abnf transcribes the RFCs; where they let recipients be lenient (empty members in credentials) or the "
        "field splits at commas first (challenges), the rule says so",
        "letter case is not judged: the package matches all grammars without regard to it",
        "comments nest as deeply as the package's own pattern does (at least one level)",
    ]


def declared(e, st, f):
    mod = "from_field" if f == "from" else f.replace("-", "_")
    q = f"{e.package}.field.parsers.{mod}.{mod}"
    v = e.class_lookup(st, q, "syntax")
    return const(st, v) if v else None


def verdict(gr, memo, pat, flags, fn, rule):
    """(extra, missing) when the pattern is about this rule, "other" when it is not, None when it can't be told."""
    k = (pat, flags, fn, rule)
    if k in memo:
        return memo[k]
    out = None
    try:
        kd = (pat, flags, fn)
        if kd not in memo:
            memo[kd] = rx.compile_dfa(pat, flags, "full" if fn == "fullmatch" else "match", cap=20000)
        a = memo[kd]
        depth = 1
        if any(gr.g._recursive(r) for r in gr.g._reach(rule) | {rule}):
            for depth in (6, 5, 4, 3, 2, 1):
                if rx.not_included(gr.dfa(rule, depth), a) is None:
                    break
        for d in (wrapped(gr, rule, depth), gr.dfa(rule, depth)):
            inside = rx.compile_pair(a, gr.field)
            extra = rx.not_included(inside, d)
            missing = rx.not_included(rx.compile_pair(d, gr.field), a)
            if extra is None and missing is None:
                out = (None, None)
                break
            out = "other"
    except (rx.TooBig, rx.Unsupported):
        out = None
    memo[k] = out
    return out


def tell(ctx, key, what, rule, extra, missing):
    if extra is None and missing is None:
        return
    parts = []
    if extra is not None:
        parts.append(f"takes {extra!r}, which {rule} does not derive")
    if missing is not None:
        parts.append(f"does not take {missing!r}, which {rule} derives")
    ctx.report(f"{key}: language differs from {rule}", f"{what} {'; '.join(parts)}")
