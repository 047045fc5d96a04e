"""C15: what is said about caching follows HTTP's rules for caches."""

from .scen import Plan

HEURISTIC = [200, 203, 204, 206, 300, 301, 308, 404, 405, 410, 414, 501]  # RFC 9110, Section 15.1
OTHERS = [201, 202, 302, 303, 307, 400, 401, 403, 406, 409, 412, 415, 416, 429, 500, 502, 503, 504]

STORE = ["STORE_METHOD_UNCACHEABLE", "STORE_NO_STORE", "STORE_PRIVATE_CC", "STORE_PRIVATE_AUTH", "STORE_PUBLIC_AUTH",
         "STORE_STORABLE", "STORE_STORABLE_SHARED_ONLY", "STORE_UNSTORABLE"]
FRESH = ["FRESHNESS_NO_CACHE", "FRESHNESS_NO_CACHE_NO_VALIDATOR", "FRESHNESS_SHARED_PRIVATE", "FRESHNESS_FRESH",
         "FRESHNESS_STALE_ALREADY", "FRESHNESS_HEURISTIC", "FRESHNESS_NONE"]
STALE = ["STALE_IF_ERROR", "FRESH_MUST_REVALIDATE", "STALE_MUST_REVALIDATE", "FRESH_PROXY_REVALIDATE",
         "STALE_PROXY_REVALIDATE", "STALE_SERVABLE"]
OTHER_NOTES = ["STALE_WHILE_REVALIDATE", "CC_AND_EXPIRES", "CURRENT_AGE", "STORE_PUBLIC_UNNECESSARY",
               "STORE_PRIVATE_PUBLIC_CONFLICT"]
ALL = STORE + FRESH + STALE + OTHER_NOTES


def but(names, *keep):
    return [n for n in names if n not in keep]


def cc(*values):
    return ", ".join(f"(ci_bytes('cache-control'), {v if v.startswith('any') else repr(v.encode())})" for v in values)


FLAGS = ["observe('private', r.caching.store_private)", "observe('shared', r.caching.store_shared)"]


def flags(private, shared):
    return {"private": [repr(private)], "shared": [repr(shared)]}


def verdicts(d, status, method, auth, validator, expires, after, age):
    """RFC 9111's rules: (verdicts on a response, may private caches store it, may shared ones).

    d: directives with their values; expires: seconds after Date, "bad" or None; after: seconds from Date to its receipt."""
    if method not in (None, "GET", "HEAD"):
        return {"STORE_METHOD_UNCACHEABLE"}, False, False
    if "no-store" in d:
        return {"STORE_NO_STORE"}, False, False
    out, private, shared = set(), True, True
    if "private" in d:
        out.add("STORE_PRIVATE_CC")
        shared = False
        if "public" in d:
            out.add("STORE_PRIVATE_PUBLIC_CONFLICT")
    elif auth:
        shared = bool({"public", "must-revalidate", "s-maxage"} & set(d))
        out.add("STORE_PUBLIC_AUTH" if shared else "STORE_PRIVATE_AUTH")
    elif {"public", "max-age"} & set(d) or expires not in (None, "bad") or status in HEURISTIC:
        out.add("STORE_STORABLE")
    elif "s-maxage" in d:
        out.add("STORE_STORABLE_SHARED_ONLY")
        private = False
    else:
        return {"STORE_UNSTORABLE"}, False, False
    current = max(after, age or 0)
    if current >= 1:
        out.add("CURRENT_AGE")
    if "no-cache" in d:
        out.add("FRESHNESS_NO_CACHE" if validator else "FRESHNESS_NO_CACHE_NO_VALIDATOR")
        return out, private, shared
    explicit = {"max-age", "s-maxage"} & set(d) or expires is not None
    life = d["max-age"] if "max-age" in d else 0 if expires is None else -1 if expires == "bad" else expires
    slife = d.get("s-maxage", life)
    fresh, sfresh = life > current, slife > current
    if explicit:
        out.add("FRESHNESS_SHARED_PRIVATE" if life != slife else "FRESHNESS_FRESH" if fresh else "FRESHNESS_STALE_ALREADY")
        if "max-age" in d and expires is not None:
            out.add("CC_AND_EXPIRES")
    else:
        out.add("FRESHNESS_HEURISTIC" if status in HEURISTIC else "FRESHNESS_NONE")
    if "public" in d and (explicit or status in HEURISTIC):
        out.add("STORE_PUBLIC_UNNECESSARY")
    if "stale-while-revalidate" in d:
        out.add("STALE_WHILE_REVALIDATE")
    if "stale-if-error" in d:
        out.add("STALE_IF_ERROR")
    elif "must-revalidate" in d:
        if explicit or fresh:
            out.add("FRESH_MUST_REVALIDATE" if fresh else "STALE_MUST_REVALIDATE")
    elif "proxy-revalidate" in d or "s-maxage" in d:
        if explicit or sfresh:
            out.add("FRESH_PROXY_REVALIDATE" if sfresh else "STALE_PROXY_REVALIDATE")
    else:
        out.add("STALE_SERVABLE")
    return out, private, shared


def combined(p, n):
    """n combinations of directives, dates, ages, validators, status and request, against verdicts()."""
    state = [12345]

    def pick(seq):
        state[0] = (state[0] * 1103515245 + 12345) & 0x7FFFFFFF
        return seq[(state[0] >> 12) % len(seq)]

    seen = set()
    while len(seen) < n:
        d = {}
        for name, odds, vals in (("no-store", 16, None), ("private", 6, None), ("public", 5, None), ("must-revalidate", 5, None),
                                 ("proxy-revalidate", 4, None), ("no-cache", 9, None), ("max-age", 2, [0, 0, 10, 59, 60, 61, 4000]),
                                 ("s-maxage", 3, [0, 0, 10, 60, 61, 4000]), ("stale-if-error", 8, [0, 5]),
                                 ("stale-while-revalidate", 6, [0, 5]), ("immutable", 5, None), ("foo", 5, None),
                                 ("no-transform", 7, None)):
            if pick(range(odds)) == 0:
                d[name] = pick(vals) if vals else None
        order = sorted(d, key=lambda x: pick(range(100)))
        if not order:
            continue
        status = pick([200, 200, 204, 301, 302, 404, 410, 500, 503])
        method = pick([None, None, "GET", "GET", "HEAD"] + (["POST"] if pick(range(4)) == 0 else []))
        auth = method is not None and pick(range(2)) == 0
        validator = pick(["", "", "etag", "last-modified"])
        expires = pick([None, None, None, 0, 60, -60, 3600, "bad"])
        after, age = pick([0, 0, 30, 60, 100, 5000]), pick([None, None, 0, 1, 10, 60, 100])
        key = f"{','.join(f'{x}={d[x]}' for x in order)} {status} {method} {auth} {validator} {expires} {after} {age}"
        if key in seen:
            continue
        seen.add(key)
        text = [x if d[x] is None else f"{pick([x, x.upper()])}={d[x]}" for x in order]
        cut = pick(range(len(text) + 1))
        lines = ["OTHER()", DATE, *(cc(", ".join(part)) for part in (text[:cut], text[cut:]) if part)]
        if expires is not None:
            lines.append(f"(ci_bytes('expires'), {(b'0' if expires == 'bad' else DATE_AT[expires].encode())!r})")
        if age is not None:
            lines.append(f"(ci_bytes('age'), b'{age}')")
        if validator:
            lines.append(f"(ci_bytes('{validator}'), {LM if validator != 'etag' else b'W/' + bytes([34]) + b'a' + bytes([34])!r})")
        lines = sorted(lines, key=lambda x: pick(range(100)))
        q = [f"q = request([OTHER(){', (ci_bytes(' + repr('authorization') + '), any_bytes())' if auth else ''}], b'{method}')"] if method else []
        want, private, shared = verdicts(d, status, method, auth, validator, expires, after, age)
        p.add(f"combined {key}", "the verdicts are those of HTTP's rules for caches",
              q + [f"r = response([{', '.join(lines)}], b'{status}'{', related=q' if q else ''}, start={T0 + after}.0)"] + FLAGS,
              must=sorted(want), never=but(ALL, *want), seen=flags(private, shared))


LM = b"Sun, 03 Jul 2011 09:08:06 GMT"
DATE = "(ci_bytes('date'), b'Mon, 04 Jul 2011 09:08:06 GMT')"
T0 = 1309770486  # that date
DATE_AT = {0: "Mon, 04 Jul 2011 09:08:06 GMT", 60: "Mon, 04 Jul 2011 09:09:06 GMT", -60: "Mon, 04 Jul 2011 09:07:06 GMT",
           3600: "Mon, 04 Jul 2011 10:08:06 GMT"}


def run(ctx):
    p = Plan(ctx, groups={"storability": STORE, "freshness": FRESH, "stale use": STALE})
    # ---- whatever the response: one verdict of each kind at most
    mix = "header_list(['cache-control', 'age', 'date', 'expires', 'etag', 'last-modified', 'vary'])"
    for st in ("any_bytes()", "b'200'", "b'500'"):
        p.add(f"verdicts on any response, status {st}", "a response gets at most one verdict on storability, on freshness and "
              "on stale use", [f"r = response({mix}, {st}, start=any_float())"],
              counts={"storability": [0, 1], "freshness": [0, 1], "stale use": [0, 1]})
    p.add("verdicts on any authenticated response", "at most one verdict of each kind",
          ["q = request([OTHER(), (ci_bytes('authorization'), any_bytes())])", f"r = response({mix}, related=q, start=any_float())"],
          counts={"storability": [0, 1], "freshness": [0, 1], "stale use": [0, 1]},
          never=["STORE_STORABLE", "STORE_UNSTORABLE", "STORE_STORABLE_SHARED_ONLY", "STORE_METHOD_UNCACHEABLE"])
    # ---- storability
    for where in ("any_bytes()", ""):
        for v in ("no-store", "No-Store", "NO-STORE", "public, no-store, max-age=60", "max-age=60,no-store",
                  "private,,no-store", "x=y, no-store", "no-store, no-store"):
            lines = f"OTHER(), {cc(v)}, OTHER()" + (f", {cc('any_bytes()')}" if where else "")
            p.add(f"no-store: {v}{' and more' if where else ''}", "no-store forbids all storing, whatever else is said",
                  [f"r = response([{lines}], any_bytes(), start=any_float())"] + FLAGS, must=["STORE_NO_STORE"],
                  never=but(ALL, "STORE_NO_STORE"), seen=flags(False, False))
    p.add("no-store after anything", "a later no-store counts like a first one",
          [f"r = response([{cc('any_bytes()')}, OTHER(), {cc('no-store')}], any_bytes(), start=any_float())"] + FLAGS,
          must=["STORE_NO_STORE"], never=but(ALL, "STORE_NO_STORE"), seen=flags(False, False))
    for code in HEURISTIC + OTHERS:
        p.add(f"nothing said, status {code}", f"{code} {'allows' if code in HEURISTIC else 'does not allow'} caches to guess",
              [f"r = response([OTHER(), {DATE}, OTHER()], b'{code}', start={T0}.0)"] + FLAGS,
              **(dict(must=["STORE_STORABLE", "FRESHNESS_HEURISTIC"], never=but(STORE + FRESH, "STORE_STORABLE", "FRESHNESS_HEURISTIC"),
                      seen=flags(True, True)) if code in HEURISTIC else
                 dict(must=["STORE_UNSTORABLE"], never=but(ALL, "STORE_UNSTORABLE"), seen=flags(False, False))))
        p.add(f"s-maxage only, status {code}", "s-maxage lets shared caches store",
              [f"r = response([OTHER(), {cc('s-maxage=60')}, {DATE}, OTHER()], b'{code}', start={T0}.0)"] + FLAGS,
              **(dict(must=["STORE_STORABLE"], never=but(STORE, "STORE_STORABLE"), seen=flags(True, True)) if code in HEURISTIC
                 else dict(must=["STORE_STORABLE_SHARED_ONLY"], never=but(STORE, "STORE_STORABLE_SHARED_ONLY"),
                           seen=flags(False, True))))
    for code in (200, 302, 404, 500, 599):
        for v in ("max-age=60", "public", "Max-Age=60", "foo, max-age=0", "public, s-maxage=9", "max-age=1, s-maxage=2"):
            p.add(f"{v}, status {code}", "explicit permission to store doesn't depend on the status code",
                  [f"r = response([OTHER(), {cc(v)}, {DATE}, OTHER()], b'{code}', start={T0}.0)"] + FLAGS,
                  must=["STORE_STORABLE"], never=but(STORE, "STORE_STORABLE"), seen=flags(True, True))
        p.add(f"Expires, status {code}", "Expires permits storing",
              [f"r = response([OTHER(), {DATE}, (ci_bytes('expires'), {DATE_AT[60].encode()!r}), OTHER()], b'{code}', start={T0}.0)"]
              + FLAGS, must=["STORE_STORABLE"], never=but(STORE, "STORE_STORABLE"), seen=flags(True, True))
        for v in ("private", "Private", "private, max-age=60", "max-age=60, s-maxage=99, private", "private, must-revalidate"):
            for q in ("", "q"):
                req = ["q = request([OTHER(), (ci_bytes('authorization'), any_bytes())])"] if q else []
                p.add(f"{v}, status {code}{' to an authenticated request' if q else ''}", "private keeps shared caches from storing",
                      req + [f"r = response([OTHER(), {cc(v)}, {DATE}, OTHER()], b'{code}', start={T0}.0{', related=q' if q else ''})"]
                      + FLAGS, must=["STORE_PRIVATE_CC"], never=but(STORE, "STORE_PRIVATE_CC") + ["STORE_PRIVATE_PUBLIC_CONFLICT"],
                      seen=flags(True, False))
        p.add(f"private and public, status {code}", "private and public contradict each other",
              [f"r = response([OTHER(), {cc('public')}, {DATE}, {cc('private')}], b'{code}', start={T0}.0)"] + FLAGS,
              must=["STORE_PRIVATE_CC", "STORE_PRIVATE_PUBLIC_CONFLICT"], never=but(STORE, "STORE_PRIVATE_CC"),
              seen=flags(True, False))
    auth = "q = request([OTHER(), (ci_bytes('authorization'), any_bytes()), OTHER()], {m})"
    for v, ok in (("public", True), ("must-revalidate", True), ("s-maxage=60", True), ("max-age=60", False), ("foo", False),
                  ("no-cache", False), ("proxy-revalidate", False), ("max-age=60, public", True), ("immutable", False),
                  ("stale-if-error=60", False), ("must-revalidate, max-age=9", True)):
        p.add(f"authenticated: {v}", "shared caches store answers to authenticated requests only with permission",
              [auth.format(m="b'GET'"), f"r = response([OTHER(), {cc(v)}, {DATE}], b'200', related=q, start={T0}.0)"] + FLAGS,
              must=["STORE_PUBLIC_AUTH" if ok else "STORE_PRIVATE_AUTH"],
              never=but(STORE, "STORE_PUBLIC_AUTH" if ok else "STORE_PRIVATE_AUTH"), seen=flags(True, ok))
    p.add("authenticated, nothing said", "shared caches don't store answers to authenticated requests",
          [auth.format(m="b'GET'"), f"r = response([OTHER(), {DATE}], b'200', related=q, start={T0}.0)"] + FLAGS,
          must=["STORE_PRIVATE_AUTH"], never=but(STORE, "STORE_PRIVATE_AUTH"), seen=flags(True, False))
    p.add("not authenticated", "without Authorization nothing is said about it",
          ["q = request([OTHER(), (ci_bytes('cookie'), any_bytes()), OTHER()])", f"r = response({mix}, related=q, start=any_float())"],
          never=["STORE_PRIVATE_AUTH", "STORE_PUBLIC_AUTH"])
    for m in ("POST", "PUT", "DELETE", "OPTIONS", "TRACE", "CONNECT", "PATCH", "get", "Head", "FOO", "PROPFIND"):
        p.add(f"method {m}", f"answers to {m} are not stored",
              [f"q = request([OTHER()], {m.encode()!r})", f"r = response({mix}, any_bytes(), related=q, start=any_float())",
               "if '*' not in r.headers.parsed.get('vary', set()):"] + ["    " + f for f in FLAGS],
              never=but(ALL, "STORE_METHOD_UNCACHEABLE"), seen=flags(False, False))
        p.add(f"method {m} without Vary", f"answers to {m} are reported as not to be stored",
              [f"q = request([OTHER()], {m.encode()!r})",
               f"r = response([OTHER(), {cc('any_bytes()')}, OTHER()], any_bytes(), related=q, start=any_float())"] + FLAGS,
              must=["STORE_METHOD_UNCACHEABLE"], never=but(ALL, "STORE_METHOD_UNCACHEABLE"), seen=flags(False, False))
    for m in ("GET", "HEAD"):
        p.add(f"method {m}", f"answers to {m} may be stored",
              [f"q = request([OTHER()], {m.encode()!r})", f"r = response({mix}, any_bytes(), related=q, start=any_float())"],
              never=["STORE_METHOD_UNCACHEABLE"])
    for v in ("*", "accept, *", "*,foo", " * "):
        p.add(f"Vary: {v}", "Vary: * keeps a response from being used again",
              [f"r = response([OTHER(), (ci_bytes('vary'), {v.encode()!r}), {cc('any_bytes()')}], any_bytes(), start=any_float())"]
              + FLAGS, never=ALL, seen=flags(False, False))
    # ---- freshness
    lm = "(ci_bytes('last-modified'), b'Sun, 03 Jul 2011 09:08:06 GMT')"
    et = "(ci_bytes('etag'), b'\"x\"')"
    for extra, ok in (("", False), (", " + lm, True), (", " + et, True), (f", {lm}, {et}", True)):
        for v in ("no-cache", "No-Cache", "no-cache, max-age=60", "max-age=60, s-maxage=99, no-cache", "public, no-cache",
                  "no-cache, must-revalidate"):
            w = "FRESHNESS_NO_CACHE" if ok else "FRESHNESS_NO_CACHE_NO_VALIDATOR"
            names = [n for n in ("Last-Modified", "ETag") if n.lower() in extra]
            p.add(f"{v} with {' and '.join(names) or 'no validator'}", "no-cache: no use without validation",
                  [f"r = response([OTHER(), {DATE}, {cc(v)}{extra}, OTHER()], b'200', start={T0}.0)"], must=[w],
                  never=but(FRESH + STALE, w))
    def at(*lines, start=f"{T0}.0", code="b'200'"):
        return [f"r = response([OTHER(), {', '.join(lines)}, OTHER()], {code}, start={start})"]

    def age(n):
        return f"(ci_bytes('age'), b'{n}')"

    def exp(n):
        return f"(ci_bytes('expires'), {DATE_AT[n].encode()!r})"

    for life, old in ((60, 0), (60, 59), (60, 60), (60, 61), (0, 0), (1, 0), (3600, 3599), (3600, 3600), (5, 100),
                      (31536000, 86400)):
        fresh = life > old
        want = "FRESHNESS_FRESH" if fresh else "FRESHNESS_STALE_ALREADY"
        for code in ("b'200'", "b'500'"):
            p.add(f"max-age={life}, Age: {old}, status {code[2:-1]}", "fresh as long as its age is less than its lifetime",
                  at(DATE, cc(f"max-age={life}"), age(old), code=code), must=[want, "STALE_SERVABLE"],
                  never=but(FRESH + STALE, want, "STALE_SERVABLE") + ["CC_AND_EXPIRES"] + ([] if old else ["CURRENT_AGE"]))
        p.add(f"s-maxage={life}, Age: {old}", "lifetimes of shared and private caches differ",
              at(DATE, cc(f"max-age=7, s-maxage={life + 8}"), age(old)), must=["FRESHNESS_SHARED_PRIVATE"],
              never=but(FRESH, "FRESHNESS_SHARED_PRIVATE"))
        p.add(f"max-age={life}, must-revalidate, Age: {old}", "must-revalidate forbids stale use",
              at(DATE, cc(f"max-age={life}, must-revalidate"), age(old)),
              must=["FRESH_MUST_REVALIDATE" if fresh else "STALE_MUST_REVALIDATE"],
              never=but(STALE, "FRESH_MUST_REVALIDATE" if fresh else "STALE_MUST_REVALIDATE"))
        p.add(f"max-age={life}, proxy-revalidate, Age: {old}", "proxy-revalidate forbids shared caches stale use",
              at(DATE, cc(f"max-age={life}, proxy-revalidate"), age(old)),
              must=["FRESH_PROXY_REVALIDATE" if fresh else "STALE_PROXY_REVALIDATE"],
              never=but(STALE, "FRESH_PROXY_REVALIDATE" if fresh else "STALE_PROXY_REVALIDATE"))
        p.add(f"s-maxage={life} alone, Age: {old}", "s-maxage forbids shared caches stale use",
              at(DATE, cc(f"s-maxage={life}"), age(old)),
              must=["FRESH_PROXY_REVALIDATE" if fresh else "STALE_PROXY_REVALIDATE"],
              never=but(STALE, "FRESH_PROXY_REVALIDATE" if fresh else "STALE_PROXY_REVALIDATE"))
        if old:
            p.add(f"Age: {old}", "a response with an age is told to come from a cache", at(DATE, age(old)), must=["CURRENT_AGE"])
    p.add("s-maxage equal to max-age", "equal lifetimes are one", at(DATE, cc("max-age=60, s-maxage=60")),
          must=["FRESHNESS_FRESH"], never=but(FRESH, "FRESHNESS_FRESH"))
    for off, started, fresh in ((60, 0, True), (60, 30, True), (0, 0, False), (-60, 0, False), (60, 60, False), (60, 90, False),
                                (3600, 60, True), (3600, 3601, False)):
        want = "FRESHNESS_FRESH" if fresh else "FRESHNESS_STALE_ALREADY"
        p.add(f"Expires {off} s after Date, received {started} s after it", "Expires less Date is the lifetime",
              at(DATE, exp(off), start=f"{T0 + started}.0"), must=[want, "STALE_SERVABLE"],
              never=but(FRESH + STALE, want, "STALE_SERVABLE") + ["CC_AND_EXPIRES"])
        p.add(f"max-age before Expires {off} s, received after {started} s", "max-age goes before Expires",
              at(DATE, exp(off), cc("max-age=5000"), start=f"{T0 + started}.0"), must=["FRESHNESS_FRESH", "CC_AND_EXPIRES"],
              never=but(FRESH, "FRESHNESS_FRESH"))
        p.add(f"max-age=0 before Expires {off} s, received after {started} s", "max-age goes before Expires",
              at(DATE, exp(off), cc("max-age=0"), start=f"{T0 + started}.0"), must=["FRESHNESS_STALE_ALREADY", "CC_AND_EXPIRES"],
              never=but(FRESH, "FRESHNESS_STALE_ALREADY"))
    for bad in ("0", "-1", "never", "Mon, 99 Jul 2011 09:08:06 GMT"):
        p.add(f"Expires: {bad}", "an invalid Expires is in the past",
              at(DATE, f"(ci_bytes('expires'), {bad.encode()!r})"), must=["FRESHNESS_STALE_ALREADY"],
              never=but(FRESH, "FRESHNESS_STALE_ALREADY"))
    # ---- stale use
    p.add("stale-if-error", "stale use on errors", at(DATE, cc("max-age=60, stale-if-error=60")), must=["STALE_IF_ERROR"],
          never=but(STALE, "STALE_IF_ERROR"))
    p.add("stale-while-revalidate", "stale use while revalidating", at(DATE, cc("max-age=60, stale-while-revalidate=60")),
          must=["STALE_WHILE_REVALIDATE", "STALE_SERVABLE"])
    p.add("no stale-while-revalidate", "nobody said so", at(DATE, cc("max-age=60, stale-if-error=60")),
          never=["STALE_WHILE_REVALIDATE"])
    for v in ("public, max-age=60", "max-age=0, public"):
        p.add(f"{v}: public", "public changes nothing here", at(DATE, cc(v)), must=["STORE_PUBLIC_UNNECESSARY"])
    p.add("no public", "there is no public", at(DATE, cc("max-age=60")), never=["STORE_PUBLIC_UNNECESSARY"])
    # ---- Date
    for n in ("expires", "last-modified"):
        p.add(f"{n} without Date", "dates need a Date to compare with", at(f"(ci_bytes({n!r}), any_bytes())"),
              must=["DATE_CLOCKLESS", "DATE_CLOCKLESS_BAD_HDR"])
    p.add("no Date", "a response without a Date", at("OTHER()"), must=["DATE_CLOCKLESS"], never=["DATE_CLOCKLESS_BAD_HDR"])
    p.add("Date of any kind", "a response with a Date", at("(ci_bytes('date'), any_bytes())", lm, exp(60)),
          never=["DATE_CLOCKLESS", "DATE_CLOCKLESS_BAD_HDR"])
    combined(p, 400 if ctx.tier == "quick" else 4000)
    done = p.run(limit=420 if ctx.tier == "quick" else 840)
    ctx.level = "other"
    ctx.coverage.update(
        scenarios=done, samples=p.samples(),
        rule="for each combination of directives, validators, dates, ages, status and method: the verdicts on every path, and "
             "whether private and shared caches may store",
        explanation="responses (and requests) run through the abstract interpreter; all other fields, letter case and, where "
                    "the rule allows it, all other directives are open. Lifetimes and ages are compared at listed values")
    ctx.assumptions.append("rules/c15.py states RFC 9111's rules as combinations of directives")
