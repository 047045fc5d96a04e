"""C17: what is said about a status code is what its specification says about it."""

from .scen import Plan

# IANA's registry of status codes (306 and 418 are registered as reserved)
REGISTERED = set("""
100 101 102 103 104 200 201 202 203 204 205 206 207 208 226 300 301 302 303 304 305 306 307 308
400 401 402 403 404 405 406 407 408 409 410 411 412 413 414 415 416 417 418 421 422 423 424 425 426 428 429 431 451
500 501 502 503 504 505 506 507 508 510 511
""".split())

# what a code alone is enough for
ALWAYS = {
    103: "STATUS_EARLY_HINTS", 104: "STATUS_UPLOAD_RESUMPTION_SUPPORTED", 208: "STATUS_ALREADY_REPORTED",
    305: "STATUS_DEPRECATED", 306: "STATUS_RESERVED", 400: "STATUS_BAD_REQUEST", 403: "STATUS_FORBIDDEN",
    404: "STATUS_NOT_FOUND", 409: "STATUS_CONFLICT", 410: "STATUS_GONE", 413: "STATUS_REQUEST_ENTITY_TOO_LARGE",
    414: "STATUS_URI_TOO_LONG", 415: "STATUS_UNSUPPORTED_MEDIA_TYPE", 418: "STATUS_IM_A_TEAPOT",
    421: "STATUS_MISDIRECTED_REQUEST", 425: "STATUS_TOO_EARLY", 428: "STATUS_PRECONDITION_REQUIRED",
    429: "STATUS_TOO_MANY_REQUESTS", 431: "STATUS_REQUEST_HEADER_FIELDS_TOO_LARGE",
    451: "STATUS_UNAVAILABLE_FOR_LEGAL_REASONS", 500: "STATUS_INTERNAL_SERVICE_ERROR", 501: "STATUS_NOT_IMPLEMENTED",
    502: "STATUS_BAD_GATEWAY", 503: "STATUS_SERVICE_UNAVAILABLE", 504: "STATUS_GATEWAY_TIMEOUT",
    505: "STATUS_VERSION_NOT_SUPPORTED", 508: "STATUS_LOOP_DETECTED",
    511: "STATUS_NETWORK_AUTHENTICATION_REQUIRED",
}
REDIRECTS = [301, 302, 303, 307, 308]
ANY = "[OTHER(), OTHER()]"


def run(ctx):
    p = Plan(ctx)
    mine = sorted(set(ALWAYS.values()))
    # ---- codes and the registry
    for code in list(range(100, 600)) + [600, 699, 700, 799, 999, 1000, 0, 99, 20, 2000]:
        b = repr(str(code).encode())
        known = str(code) in REGISTERED
        text = f"{code} is{'' if known else ' not'} registered"
        p.add(f"status {code}", text, [f"r = response({ANY}, {b}, any_bytes())"],
              must=([] if known else ["STATUS_NONSTANDARD"]) + ([ALWAYS[code]] if code in ALWAYS else []),
              never=(["STATUS_NONSTANDARD"] if known else []) + ["STATUS_CODE_NON_NUMERIC"]
              + [x for x in mine if x != ALWAYS.get(code)])
    for b in ("b''", "b'abc'", "b'2oo'", "b'20x'", "b'200 OK'", "b'-'", "b'0x1F4'", "b'2.0'", "b'\\xb2'", "b'1e2'"):
        p.add(f"status {b}", "a status code that is no number is reported", [f"r = response({ANY}, {b})"],
              must=["STATUS_CODE_NON_NUMERIC"], never=mine)
    # ---- fields the code needs
    loc = "(ci_bytes('location'), b'/there')"
    for code in range(300, 400):
        if str(code) not in REGISTERED or code in (304, 305, 306, 300):
            continue
        b = repr(str(code).encode())
        p.add(f"{code} without Location", "a redirect without a Location field is reported", [f"r = response({ANY}, {b})"],
              must=["REDIRECT_WITHOUT_LOCATION"], where={"REDIRECT_WITHOUT_LOCATION": ["('field-location', None)"]})
        p.add(f"{code} with Location", "a redirect with a Location field is in order",
              [f"r = response([OTHER(), {loc}, OTHER()], {b})"], never=["REDIRECT_WITHOUT_LOCATION"])
    for code in (200, 201, 204, 206, 300, 304, 400, 404, 500):
        p.add(f"{code} is no redirect", "only redirects need a Location for that", [f"r = response({ANY}, b'{code}')"],
              never=["REDIRECT_WITHOUT_LOCATION"])
    p.add("201 without Location", "a resource was created, and no Location says where", [f"r = response({ANY}, b'201')"],
          must=["CREATED_WITHOUT_LOCATION"], where={"CREATED_WITHOUT_LOCATION": ["('field-location', None)"]})
    p.add("201 with Location", "a Location says where the resource is", [f"r = response([OTHER(), {loc}], b'201')"],
          never=["CREATED_WITHOUT_LOCATION"])
    for code in (200, 202, 206, 303):
        p.add(f"{code} creates nothing", "only 201 says a resource was created", [f"r = response({ANY}, b'{code}')"],
              never=["CREATED_WITHOUT_LOCATION", "CREATED_SAFE_METHOD"])
    cr = "(ci_bytes('content-range'), b'bytes 0-4/10')"
    p.add("206 without Content-Range", "a partial response needs to say which part it is", [f"r = response({ANY}, b'206')"],
          must=["PARTIAL_WITHOUT_RANGE"], where={"PARTIAL_WITHOUT_RANGE": ["('field-content-range', None)"]})
    p.add("206 with Content-Range", "a partial response that says which part it is",
          [f"r = response([OTHER(), {cr}, OTHER()], b'206')"], never=["PARTIAL_WITHOUT_RANGE"])
    p.add("206 of several parts", "each part of a multipart/byteranges response says which part it is",
          ["r = response([OTHER(), (ci_bytes('content-type'), b'multipart/byteranges; boundary=xyz'), OTHER()], b'206')"],
          never=["PARTIAL_WITHOUT_RANGE"])
    p.add("304 without Date", "a 304 response needs a Date", [f"r = response({ANY}, b'304')"],
          must=["NO_DATE_304"], never=["HEADER_SHOULD_NOT_BE_IN_304"])
    p.add("304 with Date", "a 304 response with a Date",
          ["r = response([OTHER(), (ci_bytes('date'), b'Mon, 04 Jul 2011 09:08:06 GMT'), OTHER()], b'304')"],
          never=["NO_DATE_304", "HEADER_SHOULD_NOT_BE_IN_304"])
    for f, v in (("content-type", "any_bytes()"), ("content-encoding", "any_bytes()"), ("content-language", "any_bytes()")):
        p.add(f"304 with {f}", f"{f} is metadata that a 304 response should not carry",
              [f"r = response([OTHER(), (ci_bytes({f!r}), {v}), OTHER()], b'304')"], must=["HEADER_SHOULD_NOT_BE_IN_304"])
        p.add(f"200 with {f}", "other responses may carry it", [f"r = response([OTHER(), (ci_bytes({f!r}), {v})], b'200')"],
              never=["HEADER_SHOULD_NOT_BE_IN_304", "NO_DATE_304"])
    # ---- what was asked for
    def pair(q, code, extra="", method="b'GET'"):
        return [f"q = request({q}, {method})", f"r = response([OTHER(){extra}], {code!r}, related=q)"]

    Q0 = "[OTHER(), OTHER()]"

    def q(name, value):
        return f"[OTHER(), (ci_bytes({name!r}), {value}), OTHER()]"

    asked = [
        (b"100", "UNEXPECTED_CONTINUE", [("expect", "b'100-continue'"), ("expect", "b'100-Continue'"), ("expect", "b'foo, 100-continue'"),
                                        ("expect", "b'100-continue ,a=b'"), ("expect", "b'  100-CONTINUE  '"),
                                        ("expect", "b'foo'), (ci_bytes('expect'), b'100-continue'")]),
        (b"101", "UPGRADE_NOT_REQUESTED", [("upgrade", "b'websocket'"), ("upgrade", "b'a/1, websocket'")]),
        (b"206", "PARTIAL_NOT_REQUESTED", [("range", "b'bytes=0-4'")]),
        (b"406", "STATUS_406_WITHOUT_NEGOTIATION", [("accept", "b'text/html'"), ("accept-encoding", "b'gzip'"),
                                                    ("accept-language", "b'en'")]),
        (b"412", "STATUS_412_WITHOUT_PRECONDITION", [("if-match", "b'\"a\"'"), ("if-none-match", "b'\"a\"'"),
                                                     ("if-modified-since", "b'Mon, 04 Jul 2011 09:08:06 GMT'"),
                                                     ("if-unmodified-since", "b'Mon, 04 Jul 2011 09:08:06 GMT'")]),
        (b"416", "STATUS_416_WITHOUT_RANGE", [("range", "b'bytes=0-4'")]),
        (b"417", "STATUS_417_WITHOUT_EXPECT", [("expect", "b'100-continue'"), ("expect", "b'other'")]),
    ]
    for code, note, ways in asked:
        c = code.decode()
        p.add(f"{c} unasked", f"{c} in answer to a request that didn't ask for it is reported", pair(Q0, code), must=[note])
        for name, value in ways:
            p.add(f"{c} asked for by {name}: {value[2:-1]}", f"{c} in answer to a request that asked for it is in order",
                  pair(q(name, value), code), never=[note])
        p.add(f"{c} without a request", "nothing is known about what was asked for", [f"r = response([OTHER()], {code!r})"],
              never=[note])
    p.add("406 negotiated", "what was asked for can't be had", pair(q("accept", "b'text/html'"), b"406"),
          must=["STATUS_NOT_ACCEPTABLE"])
    p.add("412 with a precondition", "a precondition failed", pair(q("if-match", "b'\"a\"'"), b"412"),
          must=["STATUS_PRECONDITION_FAILED"])
    p.add("417 of 100-continue", "the server can't continue", pair(q("expect", "b'100-continue'"), b"417"),
          must=["STATUS_417_WITH_100_CONTINUE"], never=["STATUS_417_WITHOUT_EXPECT"])
    for v in ("b'a, 100-continue'", "b'a,\t100-Continue , b'", "b'a'), (ci_bytes('expect'), b'100-continue'"):
        p.add(f"417 of {v}", "the server can't continue", pair(q("expect", v), b"417"),
              must=["STATUS_417_WITH_100_CONTINUE"], never=["STATUS_417_WITHOUT_EXPECT", "STATUS_EXPECTATION_FAILED"])
    p.add("417 of something else", "another expectation failed", pair(q("expect", "b'other'"), b"417"),
          must=["STATUS_EXPECTATION_FAILED"], never=["STATUS_417_WITHOUT_EXPECT", "STATUS_417_WITH_100_CONTINUE"])
    for m in ("GET", "HEAD", "OPTIONS", "TRACE"):
        p.add(f"201 to {m}", f"{m} is safe: it doesn't create", pair(Q0, b"201", method=repr(m.encode())),
              must=["CREATED_SAFE_METHOD"])
    for m in ("POST", "PUT", "PATCH", "DELETE", "get", "MKCOL"):
        p.add(f"201 to {m}", f"{m} may create", pair(Q0, b"201", method=repr(m.encode())), never=["CREATED_SAFE_METHOD"])
    for m, more in (("get", "GET"), ("Get", "GET"), ("GE", "GET"), ("GETX", "GET, OPTIONS"), ("POST", "post, GET"), ("M", "GET, M-SEARCH")):
        p.add(f"405 to {m} allowing {more}", "methods are compared as they are",
              pair(Q0, b"405", f", (ci_bytes('allow'), {more.encode()!r})", repr(m.encode())), must=["STATUS_METHOD_NOT_ALLOWED"],
              never=["STATUS_405_METHOD_IN_ALLOW"])
    for m in ("GET", "POST", "PUT", "DELETE"):
        al = ", (ci_bytes('allow'), b'%s')"
        p.add(f"405 to {m} allowing it", "the method is among those the response allows",
              pair(Q0, b"405", al % f"OPTIONS, {m}", repr(m.encode())), must=["STATUS_405_METHOD_IN_ALLOW"],
              never=["STATUS_METHOD_NOT_ALLOWED"])
        p.add(f"405 to {m} not allowing it", "the method is not among those the response allows",
              pair(Q0, b"405", al % "OPTIONS, FOO", repr(m.encode())), must=["STATUS_METHOD_NOT_ALLOWED"],
              never=["STATUS_405_METHOD_IN_ALLOW"])
        p.add(f"405 to {m} without Allow", "the method isn't allowed", pair(Q0, b"405", "", repr(m.encode())),
              must=["STATUS_METHOD_NOT_ALLOWED"], never=["STATUS_405_METHOD_IN_ALLOW"])
    p.add("405 without a request", "nothing is known about the method",
          ["r = response([OTHER(), (ci_bytes('allow'), any_bytes())], b'405')"], never=["STATUS_405_METHOD_IN_ALLOW"])
    done = p.run()
    ctx.level = "other"
    ctx.coverage.update(
        scenarios=done, codes=510, samples=p.samples(),
        rule="for each status code, the notes on every path of a response (and of its request) that has or hasn't got the "
             "fields the code calls for",
        explanation="responses with each status code, with any other fields and content, run through the abstract interpreter; "
                    "notes that must appear are looked for on all paths, those that must not on any")
    ctx.assumptions.append("rules/c17.py lists IANA's registry and the conditions of RFC 9110, Section 15")
