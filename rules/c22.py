"""C22: content is judged against its declared type, charset and coding only where it is there to be judged, and by its bytes."""

import zlib

from .scen import Plan

PRE = '''
def made(fields, chunks, code=b"200", head=False, no_content=False, complete=True):
    r = HttpResponseLinter(no_content=no_content)
    r.is_head_response = head
    r.process_response_topline(b"HTTP/1.1", code, b"OK")
    r.process_headers(list(fields))
    for c in chunks:
        r.feed_content(c)
    r.finish_content(complete)
    return r

'''
CHARSET = ["CHARSET_UNDECODABLE", "CHARSET_MISMATCH", "CHARSET_IMPLICIT_MISMATCH"]
JUDGED = CHARSET + ["CONTENT_TYPE_MISMATCH"]
CODING = ["BAD_GZIP", "BAD_ZLIB", "BAD_BROTLI", "DECOMPRESSION_LIMIT"]
TYPES = [b"text/html", b"text/plain; charset=utf-8", b"application/json", b"text/html; charset=us-ascii", b"image/png",
         b"application/ld+json", b"text/json; charset=iso-8859-1", b"TEXT/PLAIN; CHARSET=UTF-8", b"text/css; charset=ascii"]
BAD8 = [b"caf\xe9 au lait", b"\xff\xfe\xfd\xfc", b"abc\xc3", b"\xc0\xaf", b"\xed\xa0\x80", b"a\x80b", b"\xf4\x90\x80\x80"]
GOOD8 = ["caf\u00e9", "\u4e2d\u6587\u4e2d\u6587", "\U0001f600 smile", "\u20ac 5,00", "na\u00efve \u2014 yes"]


def run(ctx):
    p = Plan(ctx, prelude=PRE)

    def ct(v, more=""):
        return f"[OTHER(), (ci_bytes('content-type'), {v!r}), OTHER(){more}]"

    # ---- nothing to judge
    where = [("b'204'", ""), ("b'205'", ""), ("b'206'", ""), ("b'304'", ""), ("b'200'", ", head=True"), ("b'404'", ", head=True"),
             ("b'200'", ", no_content=True")]
    where += [(f"b'{n}'", "") for n in (100, 101, 102, 103, 104, 150, 199)]
    for t in TYPES:
        for code, more in where:
            for chunks in ("[any_bytes(), any_bytes()]", "[b'\\xff\\xd8\\xff', any_bytes()]"):
                p.add(f"{t} in {code}{more} {chunks}", "what isn't a whole representation isn't judged by its type or charset",
                      [f"m = made({ct(t)}, {chunks}, {code}{more})"], never=JUDGED)
        for enc in (b"zstd", b"deflate", b"dcb", b"compress", b"gzip, zstd", b"deflate, gzip", b"x-unknown", b"br, foo"):
            p.add(f"{t} in {enc}", "content in a coding that isn't decoded isn't judged by its type or charset",
                  [f"m = made({ct(t, f', (b{chr(39)}content-encoding{chr(39)}, {enc!r})')}, [any_bytes(), any_bytes()])",
                   "observe('ok', m.decoded.decode_ok)"], never=JUDGED + CODING, seen={"ok": ["False"]})
        p.add(f"{t} without content", "no content isn't judged by its charset", [f"m = made({ct(t)}, [])"], never=CHARSET)
        p.add(f"{t} of a request", "the content of requests isn't judged",
              [f"m = request({ct(t)}, method=b'POST', content=any_bytes())"], never=JUDGED)
    p.add("no type", "content of no declared type isn't judged", ["m = made([OTHER(), OTHER()], [any_bytes(), any_bytes()])"], never=JUDGED)
    p.add("type in trailers", "content of no declared type isn't judged",
          ["m = response([OTHER()], content=any_bytes(), trailers=[(b'content-type', b'text/plain; charset=utf-8')])"], never=JUDGED)
    # ---- charsets
    for t in (b"text/html", b"text/plain", b"image/png", b"image/svg+xml; charset=utf-8", b"application/xml; charset=utf-8",
              b"application/octet-stream", b"text/plain; x=utf-8", b"application/jsonx", b"text/plain; charset=x-none-such",
              b"application/json-seq"):
        p.add(f"charset of {t}", "content is judged by its charset only where one is declared for text, or the type requires one",
              [f"m = made({ct(t)}, [any_bytes(), any_bytes()])"], never=CHARSET)
    for t in TYPES:
        for text in (b"abc", b" " * 20, b"<!DOCTYPE html>", b"{}", b"\x00\x7f~", b"x" * 200):
            p.add(f"ASCII {text[:8]} in {t}", "ASCII is fine in every charset", [f"m = made({ct(t)}, [{text!r}, {text!r}])"], never=CHARSET)
    for t in (b"text/plain; charset=utf-8", b"application/json", b"text/json; charset=iso-8859-1", b"text/html;charset=UTF-8",
              b"application/problem+json", b'text/css; charset="utf-8"', b"Application/JSON", b"text/html; x=y; Charset=utf-8"):
        for v in BAD8:
            for chunks in ([v], [v[:1], v[1:]], [b"plain ASCII ", b"", v + b" and more"]):
                if v == b"abc\xc3" and len(chunks) == 3:
                    continue
                p.add(f"{chunks} in {t}", "content that isn't UTF-8 though it should be is reported",
                      [f"m = made({ct(t)}, {chunks!r})"], must=["CHARSET_UNDECODABLE"], never=["CHARSET_MISMATCH", "CHARSET_IMPLICIT_MISMATCH"],
                      where={"CHARSET_UNDECODABLE": ["('field-content-type', None)"]})
        for s in GOOD8:
            v = s.encode()
            for chunks in ([v], [v[:-1], v[-1:]], [v, v, b"\n"]):
                p.add(f"{chunks} in {t}", "UTF-8 is never undecodable", [f"m = made({ct(t)}, {chunks!r})"], never=["CHARSET_UNDECODABLE"])
    for first in (b"", b"a", b"aa", b"aaa"):
        for ch in ("\u00e9", "\u4e2d", "\U0001f600"):
            n = 8500 // len(ch.encode())
            body = first + ch.encode() * n
            p.add(f"long {first} {ch.encode()}", "a character at the end of what is kept of the content may be cut",
                  [f"m = made({ct(b'text/plain; charset=utf-8')}, [{body!r}])"], never=["CHARSET_UNDECODABLE"])
            p.add(f"long {first} {ch.encode()} incomplete", "a character at the end of an incomplete message may be cut",
                  [f"m = made({ct(b'application/json')}, [{(first + ch.encode() * 3)[:-1]!r}], complete=False)"],
                  never=["CHARSET_UNDECODABLE"])
        body = first + b"\xe9" + b"abcdefgh" * 1100
        for late in (700, 1500, 3000, 5000, 8100):
            wrong = first + b"abcdefghi " * (late // 10) + b"\xe9 not quite"
            p.add(f"wrong after {late} {first}", "content that isn't UTF-8 though it should be is reported",
                  [f"m = made({ct(b'text/plain; charset=utf-8')}, [{wrong!r}, b' and on'])"], must=["CHARSET_UNDECODABLE"])
        p.add(f"long and wrong {first}", "content that isn't UTF-8 though it should be is reported",
              [f"m = made({ct(b'text/plain; charset=utf-8')}, [{body!r}])"], must=["CHARSET_UNDECODABLE"])
        p.add(f"wrong and incomplete {first}", "content that isn't UTF-8 though it should be is reported",
              [f"m = made({ct(b'text/plain; charset=utf-8')}, [{first + bytes([0xe9]) + b'abcd efgh'!r}], complete=False)"],
              must=["CHARSET_UNDECODABLE"])
    for v in (b"\xe9", b"caf\xe9", b"\xff"):
        p.add(f"{v} in latin", "every byte is ISO-8859-1", [f"m = made({ct(b'text/plain; charset=iso-8859-1')}, [{v!r}])"],
              never=["CHARSET_UNDECODABLE"])
        p.add(f"{v} in ascii", "content that isn't ASCII though it should be is reported",
              [f"m = made({ct(b'text/plain; charset=us-ascii')}, [{v!r}])"], must=["CHARSET_UNDECODABLE"])
    # ---- codings
    for enc in (b"gzip", b"x-gzip", b"GZIP"):
        e = f"(b'content-encoding', {enc!r})"
        for v in (b"not gzip at all", b"\x1f\x8a\x08\x00\x00\x00\x00\x00\x00\x00", b"\x1f\x8b\x07\x00\x00\x00\x00\x00\x00\x00", b"\x8b\x1f\x08" + b"\x00" * 9):
            for chunks in ([v], [v[:4], v[4:]], [b"", v[:9], v[9:]], [v[:1], v[1:2], v[2:]]):
                p.add(f"{chunks} in {enc}", "content without a GZIP header is reported",
                      [f"m = made([OTHER(), {e}], {chunks!r})", "observe('ok', m.decoded.decode_ok)"], must=["BAD_GZIP"],
                      never=["BAD_ZLIB", "BAD_BROTLI"] + JUDGED, where={"BAD_GZIP": ["('field-content-encoding', None)"]}, seen={"ok": ["False"]})
        for v in (b"\x1f\x8b\x08\x00" + b"\x00" * 6, b"\x1f\x8b\x08\x08" + b"\x00" * 6 + b"name\x00", b"\x1f\x8b\x08\x10" + b"\x00" * 6 + b"c\x00",
                  b"\x1f\x8b\x08\x04" + b"\x00" * 6 + b"\x02\x00ab", b"\x1f\x8b\x08\x02" + b"\x00" * 6 + b"cc",
                  b"\x1f\x8b\x08\x1e" + b"\x00" * 6 + b"\x01\x00an\x00c\x00cc", b"\x1f\x8b\x08\x01" + b"\x00" * 6):
            for chunks in ([v], [v[:3], v[3:]], [v[:10], v[10:]], [v[:-1], v[-1:]]):
                p.add(f"{chunks} in {enc}", "a GZIP header is never called invalid, however it arrives",
                      [f"m = made([OTHER(), {e}], {chunks!r} + [any_bytes()])"], never=["BAD_GZIP", "BAD_BROTLI"])
    raw = zlib.compressobj(9, zlib.DEFLATED, -zlib.MAX_WBITS)
    text = b"hello, hello, hello world; " * 30
    body = raw.compress(text) + raw.flush() + b"\x01\x02\x03\x04" + len(text).to_bytes(4, "little")
    for flag, more in ((0, b""), (1, b""), (2, b"cc"), (4, b"\x02\x00ab"), (4, b"\x05\x01" + b"x" * 261), (8, b"name\x00"), (16, b"c\x00"),
                       (24, b"n\x00c\x00"), (31, b"\x01\x00an\x00c\x00cc"), (12, b"\x00\x00\x00"), (18, b"\x00\x00\x00")):
        v = b"\x1f\x8b\x08" + bytes([flag]) + b"\x00" * 6 + more + body
        n = 10 + len(more)
        for cut in ([], [3], [10], [n - 1], [n], [n + 1], [n, n], [n + 5], [2, 4, 11, n, n + 2], [len(v) - 8], [len(v) - 1]):
            at = [0] + [c for c in sorted(cut) if c <= len(v)] + [len(v)]
            chunks = [v[a:b] for a, b in zip(at, at[1:])]
            p.add(f"gzip flags {flag} {len(more)} cut {cut}", "GZIP content is decoded to what was compressed, however it arrives",
                  [f"m = made([OTHER(), (b'content-encoding', b'gzip')], {chunks!r})", "observe('s', m.content_sample)",
                   "observe('n', m.decoded.length)", "observe('ok', m.decoded.decode_ok)"], never=CODING,
                  seen={"s": [repr(text)], "n": [str(len(text))], "ok": ["True"]})
    for at in (0, 3, 9):
        broken = body[:at] + b"\xff\xff\xff\xff" + body[at + 4:]
        try:
            zlib.decompress(broken, -zlib.MAX_WBITS)
            continue
        except zlib.error:
            pass
        v = b"\x1f\x8b\x08" + b"\x00" * 7 + broken
        for chunks in ([v], [v[:10], v[10:]], [v[:5], v[5:40], v[40:]]):
            if at == 9 and len(chunks) > 1:
                continue
            p.add(f"gzip broken at {at} {len(chunks)}", "GZIP content that is corrupt is reported",
                  [f"m = made([OTHER(), (b'content-encoding', b'gzip')], {chunks!r})", "observe('ok', m.decoded.decode_ok)"],
                  must=["BAD_ZLIB"] if at == 0 else [], never=["BAD_GZIP", "BAD_BROTLI"], seen={"ok": ["False"]} if at == 0 else {})
    for enc in ("", "(b'content-encoding', b'identity')", "(b'content-encoding', b'')", "(b'x-content-encoding', b'gzip')"):
        p.add(f"content {enc}", "content that isn't coded isn't judged by a coding",
              [f"m = made([OTHER(){', ' + enc if enc else ''}], [any_bytes(), any_bytes()])", "observe('ok', m.decoded.decode_ok)"], never=CODING,
              seen={"ok": ["True"]})
    p.add("coding of unread content", "content that isn't given isn't judged by its coding",
          ["m = made([OTHER(), (b'content-encoding', b'gzip, br')], [any_bytes(), any_bytes()], no_content=True)"], never=CODING)
    for enc in (b"br", b"gzip", b"x-gzip"):
        p.add(f"only {enc}", "content is judged by its own coding",
              [f"m = made([OTHER(), (b'content-encoding', {enc!r})], [any_bytes(), any_bytes()])"],
              never=["BAD_GZIP", "BAD_ZLIB"] if enc == b"br" else ["BAD_BROTLI"])
    done = p.run()
    ctx.level = "proof"
    ctx.coverage.update(
        scenarios=done, samples=p.samples(),
        rule="type, charset and coding notes only where there is a whole, decoded, declared representation; UTF-8 and GZIP by their bytes",
        explanation="each scenario is run through the abstract interpreter; content is unknown where it can't matter, and exact where it does; "
                    "what sniffpy, chardet, zlib and brotli find is left open")
    ctx.assumptions.append("the guesses of sniffpy and chardet themselves aren't judged")
