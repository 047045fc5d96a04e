"""C10: content: its length against Content-Length, messages that can't have any, what is kept of it."""

from .scen import Plan

PRE = '''
def chunked(side, fields, chunks, code=b"200", method=b"POST", head=False, no_content=False, complete=True, trailers=None):
    if side == "request":
        r = HttpRequestLinter(no_content=no_content)
        r.process_request_topline(method, b"http://example.com/", b"HTTP/1.1")
    else:
        r = HttpResponseLinter(no_content=no_content)
        r.is_head_response = head
        r.process_response_topline(b"HTTP/1.1", code, b"OK")
    r.process_headers(list(fields))
    for c in chunks:
        r.feed_content(c)
    r.finish_content(complete, trailers)
    return r

'''
LENGTH = ["CL_CORRECT", "CL_INCORRECT"]
# (chunks, content length)
EQUAL = [
    ([], 0), ([0], 0), ([0, 0], 0), ([12], 12), ([5, 7], 12), ([0, 12, 0], 12), ([1, 1, 1, 1], 4), ([9000, 70000, 3], 79003),
    ([8192, 8192, 1], 16385), ([1, 8191, 1], 8193),
]
# (chunks as (least, most), what isn't their length)
UNEQUAL = [
    ([(1, None)], 0), ([(0, 0)], 12), ([], 1), ([(0, 11)], 12), ([(13, None)], 12), ([(5, 5), (0, 6)], 12), ([(5, 5), (8, None)], 12),
    ([(12, 12), (1, None)], 12), ([(9000, 9000), (1, None)], 9000), ([(9000, None), (0, None)], 8192), ([(0, 8000), (0, 191)], 8192),
]


def sized(chunks):
    return "[" + ", ".join(f"sized_bytes({a}, {b})" for a, b in chunks) + "]"


def run(ctx):
    p = Plan(ctx, prelude=PRE)
    line = "(ci_bytes('content-length'), {!r})"

    def cl(v, more=""):
        return f"[OTHER(), {line.format(v)}, OTHER(){more}]"

    for side in ("request", "response"):
        for ch, n in EQUAL:
            chunks = sized([(c, c) for c in ch])
            for v in (str(n).encode(), b" %d " % n, b"00%d" % n):
                p.add(f"{side} {ch} {v}", "content of the declared length is correct, however it arrives",
                      [f"m = chunked({side!r}, {cl(v)}, {chunks})", "observe('len', m.content_length)"], must=["CL_CORRECT"],
                      never=["CL_INCORRECT"], seen={"len": [str(n)]}, where={"CL_CORRECT": ["('field-content-length', None)"]})
            p.add(f"{side} {ch} without", "without Content-Length, there is nothing to compare",
                  [f"m = chunked({side!r}, [OTHER(), OTHER()], {chunks}, trailers=[{line.format(b'7')}])"], never=LENGTH)
            p.add(f"{side} {ch} unread", "content that isn't given isn't compared",
                  [f"m = chunked({side!r}, {cl(b'9')}, {chunks}, no_content=True)"],
                  never=LENGTH + ["CONTENT_NOT_ALLOWED", "REQUEST_CONTENT_NOT_DEFINED", "BAD_GZIP", "BAD_ZLIB", "CONTENT_TYPE_MISMATCH"])
        for ch, n in UNEQUAL:
            for how in ("complete=True", "complete=False"):
                p.add(f"{side} {ch} {n} {how}", "content of another length than declared is reported",
                      [f"m = chunked({side!r}, {cl(b'%d' % n)}, {sized(ch)}, {how})"], must=["CL_INCORRECT"], never=["CL_CORRECT"],
                      where={"CL_INCORRECT": ["('field-content-length', None)"]})
        for enc in (b"gzip", b"br", b"zstd", b"gzip, br", b"identity", b"x-gzip"):
            e = f", (b'content-encoding', {enc!r})"
            p.add(f"{side} in {enc}", "the length of content is that before decoding",
                  [f"m = chunked({side!r}, {cl(b'300', e)}, [sized_bytes(100, 100), sized_bytes(200, 200)])"], must=["CL_CORRECT"],
                  never=["CL_INCORRECT"])
            p.add(f"{side} of another length in {enc}", "the length of content is that before decoding",
                  [f"m = chunked({side!r}, {cl(b'300', e)}, [sized_bytes(100, 100), sized_bytes(201, None)])"], must=["CL_INCORRECT"],
                  never=["CL_CORRECT"])
        for v in (b"x", b"-3", b"3, 3", b"", b"3.0"):
            p.add(f"{side} {v}", "a length that isn't a number is never correct",
                  [f"m = chunked({side!r}, {cl(v)}, [b'abc', any_bytes()])"], never=["CL_CORRECT"])
        p.add(f"{side} first of several", "of several lengths, the first is compared",
              [f"m = chunked({side!r}, {cl(b'3', ', ' + line.format(b'4'))}, [b'abc'])"], must=["CL_CORRECT"], never=["CL_INCORRECT"])
    # ---- content where there can be none
    none = [("b'204'", "False"), ("b'304'", "False"), ("b'200'", "True"), ("b'404'", "True"), ("b'206'", "True"), ("b'204'", "True")]
    none += [(f"b'{n}'", "False") for n in (100, 101, 102, 103, 104, 150, 199)]
    for code, head in none:
        for f in ("[OTHER()]", cl(b"12"), "[OTHER(), (b'content-encoding', b'zstd')]", "[(b'content-encoding', b'gzip')]",
                  "[(b'content-encoding', b'identity, x')]", "[(b'transfer-encoding', b'chunked')]"):
            for ch in ([(1, None)], [(0, 0), (1, None)], [(1, 1), (0, None), (0, 0)], [(12, 12)]):
                p.add(f"content in {code} {head} {f} {ch}", "content where none is allowed is reported",
                      [f"m = chunked('response', {f}, {sized(ch)}, {code}, head={head})"], must=["CONTENT_NOT_ALLOWED"], never=LENGTH,
                      where={"CONTENT_NOT_ALLOWED": ["('message', None)"]})
            for ch in ([], [(0, 0)], [(0, 0), (0, 0)]):
                p.add(f"no content in {code} {head} {f} {ch}", "a message without content has none",
                      [f"m = chunked('response', {f}, {sized(ch)}, {code}, head={head})"], never=["CONTENT_NOT_ALLOWED"] + LENGTH)
            p.add(f"unread content in {code} {head} {f}", "content that isn't given isn't judged",
                  [f"m = chunked('response', {f}, [any_bytes(), any_bytes()], {code}, head={head}, no_content=True)"],
                  never=["CONTENT_NOT_ALLOWED"] + LENGTH)
    for code in (200, 201, 202, 203, 205, 206, 300, 301, 302, 303, 305, 307, 400, 404, 416, 499, 500, 599, 600, 99):
        p.add(f"content in {code}", "other responses can have content",
              [f"m = chunked('response', [OTHER(), OTHER()], [any_bytes(), sized_bytes(1, None)], b'{code}')"],
              never=["CONTENT_NOT_ALLOWED"])
        p.add(f"length in {code}", "the content of other responses is compared",
              [f"m = chunked('response', {cl(b'12')}, [sized_bytes(5, 5), sized_bytes(7, 7)], b'{code}')"], must=["CL_CORRECT"],
              never=["CONTENT_NOT_ALLOWED", "CL_INCORRECT"])
    for method in ("GET", "HEAD", "DELETE", "CONNECT", "TRACE"):
        for ch in ([(1, None)], [(0, 0), (1, None)], [(1, 1), (0, None)]):
            p.add(f"content in {method} {ch}", f"{method} requests have no content",
                  [f"m = chunked('request', [OTHER()], {sized(ch)}, method=b'{method}')"], must=["REQUEST_CONTENT_NOT_DEFINED"],
                  never=["CONTENT_NOT_ALLOWED"], where={"REQUEST_CONTENT_NOT_DEFINED": ["('message', None)"]})
        p.add(f"no content in {method}", "a request without content has none",
              [f"m = chunked('request', {cl(b'12')}, [sized_bytes(0, 0)], method=b'{method}')"],
              never=["REQUEST_CONTENT_NOT_DEFINED", "CONTENT_NOT_ALLOWED"])
        p.add(f"unread content in {method}", "content that isn't given isn't judged",
              [f"m = chunked('request', {cl(b'12')}, [any_bytes()], method=b'{method}', no_content=True)"],
              never=["REQUEST_CONTENT_NOT_DEFINED", "CONTENT_NOT_ALLOWED"])
    for method in ("POST", "PUT", "PATCH", "OPTIONS", "QUERY", "PROPFIND", "get", "GETX", "FOO"):
        p.add(f"content in {method}", f"{method} requests may have content",
              [f"m = chunked('request', [OTHER(), OTHER()], [any_bytes(), sized_bytes(1, None)], method=b'{method}')"],
              never=["REQUEST_CONTENT_NOT_DEFINED", "CONTENT_NOT_ALLOWED"])
    # ---- what is kept of the content
    for ch, n in (([5000, 5000], 8192), ([8191, 2], 8192), ([8191, 1, 1], 8192), ([8192, 1], 8192), ([1, 9000], 8192), ([9000], 8192),
                  ([8193], 8192), ([100000, 1, 100000], 8192), ([1, 1, 1], 3), ([], 0), ([8191], 8191), ([8000, 100], 8100)):
        for enc in ("", "(b'content-encoding', b'identity')"):
            p.add(f"sample of {ch} {enc}", "the first 8192 bytes of the content are kept, however it arrives",
                  [f"m = chunked('response', [{enc}], {sized([(c, c) for c in ch])})", "observe('n', len(m.content_sample))",
                   "observe('d', m.decoded.length)"], seen={"n": [str(n)], "d": [str(sum(ch))]})
    for ch in ([b"abc", b"", b"defgh"], [b"abcdefgh"], [b"", b"a", b"bcdefg", b"h"]):
        p.add(f"sample {ch}", "the content is kept as it arrived", [f"m = chunked('response', [OTHER()], {ch!r})",
              "observe('s', m.content_sample)", "observe('n', m.content_length)"], seen={"s": ["b'abcdefgh'"], "n": ["8"]})
    # ---- the rest of a message
    p.add("user agent", "a request without User-Agent is reported", ["m = request([OTHER(), OTHER()])"], must=["MISSING_USER_AGENT"],
          where={"MISSING_USER_AGENT": ["('field-user-agent', None)"]})
    p.add("user agent elsewhere", "a request without User-Agent is reported", ["m = request([OTHER()], trailers=[(b'user-agent', b'a/1')])"],
          must=["MISSING_USER_AGENT"])
    p.add("no user agent missing", "a request with User-Agent isn't without", ["m = request([OTHER(), (ci_bytes('user-agent'), b'a/1')])"],
          never=["MISSING_USER_AGENT"])
    p.add("user agent of responses", "responses need no User-Agent", ["m = response([OTHER()])"], never=["MISSING_USER_AGENT"])
    done = p.run()
    ctx.level = "proof"
    ctx.coverage.update(
        scenarios=done, samples=p.samples(),
        rule="Content-Length against the length of the chunks; content where there can be none; the sample; User-Agent",
        explanation="each scenario is run through the abstract interpreter with chunks of exact or bounded lengths and unknown bytes, "
                    "and unknown other fields around")
    ctx.assumptions.append("chunkings are those of rules/c10.py, with open lengths where the outcome doesn't depend on them")
