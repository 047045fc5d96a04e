"""C21: numbers in messages are made of digits: anything else is reported, and not used."""

from .scen import Plan

NOT = [b"+5", b"-5", b"5_0", b"5.0", b"0x5", b"\xb2", b"5\xb2", b"5\xbd", b"5 5", b"1e3", b"five", b"5s", b"inf",
       b"nan", b"0b1", b"0o7", b"--5", b"+", b"-", b"_", b"_5", b"5_", b"5,5", b"\xb9", b"5-", b"5e", b"5.", b".5"]
DIGITS = [(b"0", 0), (b"5", 5), (b"007", 7), (b"1234567890", 1234567890), (b"99999999999999999999", 99999999999999999999)]
CC = ["max-age", "s-maxage", "stale-if-error", "stale-while-revalidate", "min-fresh", "max-stale"]


def run(ctx):
    p = Plan(ctx)

    def field(name, side, template, notes, value, used, bad=NOT, good=DIGITS, empty=True, unused="None"):
        """notes(v): those expected of a bad value v; value: what is read of the field m; used(n): what it is for number n."""
        key = name.lower()
        kw = ", start=any_float()" if side == "response" else ""
        for v in list(bad) + ([b""] if empty else []):
            line = template.replace(b"@", v)
            p.add(f"{name} {line}", "a number is made of digits: anything else is reported and not used",
                  [f"m = {side}([OTHER(), (ci_bytes({key!r}), {line!r})]{kw})", f"observe('value', {value})"], must=notes(v),
                  seen={"value": [unused]})
        for v, n in good:
            line = template.replace(b"@", v)
            p.add(f"{name} {line}", "digits are a number", [f"m = {side}([OTHER(), (ci_bytes({key!r}), {line!r})]{kw})",
                  f"observe('value', {value})"], never=sorted({x for b in bad for x in notes(b)}), seen={"value": [used(n)]})

    def parsed(name):
        return f"m.headers.parsed[{name.lower()!r}]"

    n = str
    field("Content-Length", "response", b"@", lambda v: ["CL_BAD_SYNTAX"], parsed("Content-Length"), n)
    field("Content-Length", "request", b"@", lambda v: ["CL_BAD_SYNTAX"], parsed("Content-Length"), n)

    def neg(minus, other):
        return lambda v: [] if v in (b"--5", b"-") else [minus] if v == b"-5" else [other]

    field("Age", "response", b"@", neg("AGE_NEGATIVE", "AGE_NOT_INT"), parsed("Age"), n)
    field("Access-Control-Max-Age", "response", b"@", neg("CORS_MAX_AGE_NEGATIVE", "CORS_MAX_AGE_INVALID"),
          parsed("Access-Control-Max-Age"), n)
    for t in (b"max-age=@", b'max-age="@"', b"includeSubDomains; max-age=@; preload", b"Max-Age=@;"):
        field("Strict-Transport-Security", "response", t, lambda v: ["HSTS_INVALID"],
              parsed("Strict-Transport-Security") + "['max-age']", n)
    cookie = [v for v in NOT if v.strip() == v.decode("latin-1").strip().encode("latin-1")]
    field("Set-Cookie", "response", b"a=b; Max-Age=@; Secure", lambda v: ["SET_COOKIE_NON_DIGIT_MAX_AGE"],
          "[v for k, v in m.headers.parsed['set-cookie'][0][2] if k == 'Max-Age'] or None", lambda x: f"[{x}]", cookie, good=[],
          empty=False)
    field("Set-Cookie", "response", b"a=b; max-age=@", lambda v: ["SET_COOKIE_EMPTY_MAX_AGE"], "len(m.headers.parsed['set-cookie'][0][2])",
          n, [], good=[], unused="0")
    for v, x in DIGITS:
        p.add(f"Set-Cookie {v}", "digits are a number", [f"m = response([OTHER(), (ci_bytes('set-cookie'), {b'a=b; Max-Age=' + v!r})])",
              "observe('value', m.headers.parsed['set-cookie'][0][2][0])"], never=["SET_COOKIE_NON_DIGIT_MAX_AGE", "SET_COOKIE_EMPTY_MAX_AGE"],
              seen={"value": [f"('Max-Age', {x})"]})
    some = [v for v in NOT if b"," not in v and not v.endswith(b"-")]
    for t, at in ((b"bytes=@-", 0), (b"bytes=-@", 1), (b"bytes=0-@", 1), (b"bytes=0-0, @-", None)):
        good = [x for x in DIGITS if at is not None]
        field("Range", "request", t, lambda v: ["RANGE_BAD_SYNTAX"], parsed("Range"), n,
              some, good=[], empty=t != b"bytes=0-@")
        for v, x in good:
            p.add(f"Range {t.replace(b'@', v)}", "digits are a number",
                  [f"m = request([OTHER(), (ci_bytes('range'), {t.replace(b'@', v)!r})])", f"observe('value', m.headers.parsed['range'].ranges[0][{at}])"],
                  never=["RANGE_BAD_SYNTAX"], seen={"value": [n(x)]})
    for t, attr in ((b"bytes 0-0/@", "complete_length"), (b"bytes 0-@/*", "last_byte_pos"), (b"bytes @-99999999999999999999/*", "first_byte_pos")):
        field("Content-Range", "response", t, lambda v: ["RANGE_INVALID_INTEGER"], parsed("Content-Range"), n,
              [v for v in some if b"-" not in v and b" " not in v], good=[])
        for v, x in DIGITS:
            p.add(f"Content-Range {t.replace(b'@', v)}", "digits are a number",
                  [f"m = response([OTHER(), (ci_bytes('content-range'), {t.replace(b'@', v)!r})], b'206')",
                   f"observe('value', m.headers.parsed['content-range'].{attr})"],
                  never=["RANGE_INVALID_INTEGER"], seen={"value": [n(x)]})
    for d in CC:
        side = "request" if d in ("min-fresh", "max-stale") else "response"
        for t in (f"{d}=@".encode(), f"x-other, {d.title()}=@".encode()):
            i = 1 if b"other" in t else 0
            field("Cache-Control", side, t, lambda v: ["CC_BAD_VALUE_TYPE"], "len(m.headers.parsed['cache-control'])", n,
                  [v for v in NOT if b"," not in v], good=[], unused=str(i))
            for v, x in DIGITS:
                p.add(f"Cache-Control {t.replace(b'@', v)}", "digits are a number",
                      [f"m = {side}([OTHER(), (ci_bytes('cache-control'), {t.replace(b'@', v)!r})])",
                       f"observe('value', m.headers.parsed['cache-control'][{i}][1])"], never=["CC_BAD_VALUE_TYPE"], seen={"value": [n(x)]})
        p.add(f"Cache-Control {d}", "a number may only be left out where it is optional",
              [f"m = {side}([OTHER(), (ci_bytes('cache-control'), {d.encode()!r})])"],
              must=[] if d == "max-stale" else ["CC_BAD_VALUE_TYPE"], never=["CC_BAD_VALUE_TYPE"] if d == "max-stale" else [])
    # ---- q values
    for name, what in (("Accept", b"text/html"), ("Accept-Language", b"en")):
        for v in (b"1e-1", b"+0.5", b"-0", b"0_1", b".5", b"2", b"1.1", b"0.1234", b"inf", b"nan", b"-1", b"1.001", b"00", b"01", b"1.0000",
                  b"0x1", b"x", b"0,5"):
            if b"," in v:
                continue
            line = what + b";q=" + v
            p.add(f"{name} {line}", "a weight is 0 to 1 with at most three decimals: anything else is reported and not used",
                  [f"m = request([OTHER(), (ci_bytes({name.lower()!r}), {line!r})])", f"observe('value', {parsed(name)}[0].q)"],
                  must=["BAD_Q_VALUE"], seen={"value": ["None"]})
        for v in (b"0", b"1", b"0.5", b"0.123", b"1.000", b"0.", b"1.", b"0.000", b"1.0"):
            line = what + b";q=" + v
            p.add(f"{name} {line}", "a weight is 0 to 1 with at most three decimals",
                  [f"m = request([OTHER(), (ci_bytes({name.lower()!r}), {line!r})])", f"observe('value', {parsed(name)}[0].q)"],
                  never=["BAD_Q_VALUE"], seen={"value": [str(float(v))]})
    # ---- status codes
    for v in NOT + [b"", b" 200", b"200 ", b"2 00", b"\xff", b"OK"]:
        p.add(f"status {v}", "a status code is made of digits", [f"m = response([OTHER()], {v!r})", "observe('code', m.status_code)"],
              must=["STATUS_CODE_NON_NUMERIC"], seen={"code": ["None"]}, where={"STATUS_CODE_NON_NUMERIC": ["('status', None)"]})
    for v in (b"200", b"404", b"599", b"099", b"299", b"999"):
        p.add(f"status {v}", "a status code is made of digits", [f"m = response([OTHER()], {v!r})", "observe('code', m.status_code)"],
              never=["STATUS_CODE_NON_NUMERIC"], seen={"code": [str(int(v))]})
    done = p.run()
    ctx.level = "proof"
    ctx.coverage.update(
        scenarios=done, samples=p.samples(), rule="text that isn't digits is reported and unused; digits are the number they say",
        explanation="each scenario is run through the abstract interpreter, with the field's name in any letter case and unknown "
                    "fields around; numbers are those that Python's int, float and isdigit read more into than HTTP does")
    ctx.assumptions.append("values are those listed in rules/c21.py")
