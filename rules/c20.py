"""C20: the lines of a section: repeated fields, the values of several lines, their text, characters and sizes."""

from .fields_table import fields
from .scen import Plan

# two valid values of fields that allow one: (first, what is made of it, second)
FIRST = {
    "Content-Length": ("b'5'", "5", "b'7'"),
    "Age": ("b'60'", "60", "b'61'"),
    "Date": ("b'Mon, 04 Jul 2011 09:08:06 GMT'", "1309770486", "b'Tue, 05 Jul 2011 09:08:06 GMT'"),
    "Expires": ("b'Mon, 04 Jul 2011 09:08:06 GMT'", "1309770486", "b'Tue, 05 Jul 2011 09:08:06 GMT'"),
    "Last-Modified": ("b'Mon, 04 Jul 2011 09:08:06 GMT'", "1309770486", "b'Tue, 05 Jul 2011 09:08:06 GMT'"),
    "If-Modified-Since": ("b'Mon, 04 Jul 2011 09:08:06 GMT'", "'Mon, 04 Jul 2011 09:08:06 GMT'",
                          "b'Tue, 05 Jul 2011 09:08:06 GMT'"),
    "Location": ("b'/a'", "'/a'", "b'/b'"),
    "Content-Location": ("b'/a'", "'/a'", "b'/b'"),
    "Host": ("b'example.com'", None, "b'example.org'"),
    "User-Agent": ("b'a/1'", "'a/1'", "b'b/2'"),
    "Referer": ("b'/a'", "'/a'", "b'/b'"),
    "Max-Forwards": ("b'3'", "'3'", "b'4'"),
    "X-Frame-Options": ("b'DENY'", None, "b'SAMEORIGIN'"),
    "Access-Control-Allow-Origin": ("b'*'", "'*'", "b'null'"),
}
# lists of tokens and the like: what each member is kept as
LISTS = {
    "Allow": ["GET", "PUT", "POST"],
    "Content-Encoding": ["gzip", "br", "zstd"],
    "Content-Language": ["en", "de", "fr"],
    "Connection": ["close", "x-a", "x-b"],
    "Accept-Ranges": ["bytes", "x-a", "x-b"],
    "Trailer": ["Date", "ETag", "Foo"],
}


def run(ctx):
    p = Plan(ctx, {"repeated": ["SINGLE_HEADER_REPEAT"]})
    n = 0
    for f in fields():
        side = f.side()
        line = f"(ci_bytes({f.low!r}), any_bytes())"
        for sec in ("headers", "trailers"):
            def msg(lines):
                ls = "[" + ", ".join(lines) + "]"
                return f"m = {side}({ls})" if sec == "headers" else f"m = {side}(trailers={ls})"

            n += 1
            one = f.kind == "s"
            p.add(f"{f.name} once in the {sec}", "a field on one line is not repeated", [msg(["OTHER()", line, "OTHER()"])],
                  never=["SINGLE_HEADER_REPEAT"])
            p.add(f"{f.name} twice in the {sec}",
                  f"{f.name} {'allows one value: more than one line is reported, once' if one else 'may be on several lines'}",
                  [msg(["OTHER()", line, "OTHER()", line])], must=["SINGLE_HEADER_REPEAT"] if one else [],
                  never=[] if one else ["SINGLE_HEADER_REPEAT"], counts={"repeated": [1 if one else 0]},
                  where={"SINGLE_HEADER_REPEAT": [f"('field-{f.low}', {f.name!r})"]} if one else {})
            if one:
                p.add(f"{f.name} thrice in the {sec}", f"{f.name} allows one value: more than one line is reported, once",
                      [msg([line, line, "OTHER()", line])], must=["SINGLE_HEADER_REPEAT"], counts={"repeated": [1]})
    p.add("other fields", "fields unknown may be on several lines",
          ["n = other_bytes()", "m = response([(n, any_bytes()), (n, any_bytes())], trailers=[OTHER(), OTHER()])"],
          never=["SINGLE_HEADER_REPEAT"])
    by = {f.name: f for f in fields()}
    for name, (a, val, b) in FIRST.items():
        side = by[name].side()
        low = name.lower()
        for sec in ("headers", "trailers"):
            ls = f"[OTHER(), (ci_bytes({low!r}), {a}), OTHER(), (ci_bytes({low!r}), {b}), OTHER(), (ci_bytes({low!r}), any_bytes())]"
            m = f"m = {side}({ls})" if sec == "headers" else f"m = {side}(trailers={ls})"
            if val is not None:
                p.add(f"the first {name} in the {sec}", "of several lines of a field that allows one value, the first is used",
                      [m, f"observe('value', m.{sec}.parsed[{low!r}])"], seen={"value": [val]})
    for name, vals in LISTS.items():
        side = by[name].side()
        low = name.lower()
        for how, lines in (("one line", [", ".join(vals)]), ("two lines", [", ".join(vals[:2]), vals[2]]),
                           ("other two lines", [vals[0], ",".join(vals[1:])]), ("three lines", vals),
                           ("lines of empty members", [f" {vals[0]} , ,", f",{vals[1]},,{vals[2]}"])):
            ls = "[OTHER(), " + ", OTHER(), ".join(f"(ci_bytes({low!r}), {x.encode()!r})" for x in lines) + "]"
            body = [f"m = {side}({ls})", f"v = m.headers.parsed[{low!r}]", "observe('n', len(v))"]
            body += [f"observe('v{i}', str(v[{i}]).lower())" for i in range(3)]
            p.add(f"{name} on {how}", "the members of a list are those of every line, in their order", body,
                  seen={"n": ["3"], **{f"v{i}": [repr(vals[i].lower())] for i in range(3)}})
    for sec in ("headers", "trailers"):
        raw = [(b"X-One", b"a, b"), (b"x-two", b" c "), (b"X-ONE", b""), (b"Vary", b"Foo"), (b"date", b"x")]
        ls = "[" + ", ".join(f"({a!r}, {b!r})" for a, b in raw) + "]"
        body = [f"m = response({ls})" if sec == "headers" else f"m = response(trailers={ls})",
                f"observe('n', len(m.{sec}.text))"]
        seen = {"n": [str(len(raw))]}
        for i, (a, b) in enumerate(raw):
            body.append(f"observe('t{i}', m.{sec}.text[{i}])")
            seen[f"t{i}"] = [f"({a.decode()!r}, {b.decode()!r})"]
        p.add(f"the text of {sec}", "each line is kept as it was received, in order", body, seen=seen)
    # ---- characters
    for v in (b"\x80", b"\xff", b"caf\xe9", b"\xc3\xa9", b"a\x80b", b"\xa0"):
        p.add(f"value {v}", "characters outside ASCII are reported, and read as ISO-8859-1",
              [f"m = response([OTHER(), (b'x-one', {v!r})])", "observe('v', m.headers.text[1][1])"],
              must=["FIELD_VALUE_ENCODING"], seen={"v": [repr(v.decode('iso-8859-1'))]})
        p.add(f"name {v}", "characters outside ASCII are reported", [f"m = response([OTHER(), ({v!r}, b'')], trailers=[OTHER()])"],
              must=["FIELD_NAME_ENCODING"])
        p.add(f"name {v} in trailers", "characters outside ASCII are reported", [f"m = response(trailers=[({v!r}, any_bytes())])"],
              must=["FIELD_NAME_ENCODING"])
    for v in (b"", b"\x7f", b"\x00", b"a b", b"~", b"\t", b"x" * 100):
        p.add(f"plain value {v[:9]}", "ASCII is not reported", [f"m = response([(b'x-one', {v!r}), (b'etag', {v!r})])"],
              never=["FIELD_VALUE_ENCODING", "FIELD_NAME_ENCODING"])
    # ---- sizes
    big, total = 8 * 1024, 32 * 1024
    for sec in ("headers", "trailers"):
        def msg(lines):
            ls = "[" + ", ".join(lines) + "]"
            return f"m = response({ls})" if sec == "headers" else f"m = response(trailers={ls})"

        for nm in ("x-one", "etag", "vary"):
            lo = big - len(nm)
            p.add(f"long {nm} in {sec}", "a line of more than 8 KiB is reported",
                  [msg(["OTHER()", f"({nm.encode()!r}, sized_bytes({lo + 1}, None))", "OTHER()"])], must=["FIELD_TOO_LARGE"])
            p.add(f"short {nm} in {sec}", "a line of 8 KiB is not too long",
                  [msg([f"({nm.encode()!r}, sized_bytes(0, {lo}))"] * 3)], never=["FIELD_TOO_LARGE"])
        p.add(f"long name in {sec}", "a line of more than 8 KiB is reported",
              [msg([f"({b'x' * 8193!r}, any_bytes())"])], must=["FIELD_TOO_LARGE"])
        p.add(f"one long line fills {sec}", "more than 32 KiB of fields are reported",
              [msg([f"(b'x-one', sized_bytes({total - 4}, None))"])], must=["FIELD_SECTION_TOO_LARGE"])
        p.add(f"one long line in {sec}", "32 KiB of fields are not too much",
              [msg([f"(b'x-one', sized_bytes(0, {total - 5}))"])], never=["FIELD_SECTION_TOO_LARGE"])
        p.add(f"many lines fill {sec}", "more than 32 KiB of fields are reported",
              [msg(["(b'x-one', sized_bytes(8000, None))"] * 2 + ["(b'vary', sized_bytes(8000, None))", "(b'etag', sized_bytes(8000, None))",
                    "(b'x-two', sized_bytes(800, None))"])], must=["FIELD_SECTION_TOO_LARGE"])
        p.add(f"many lines in {sec}", "32 KiB of fields are not too much",
              [msg(["(b'x-one', sized_bytes(0, 8000))"] * 2 + ["(b'vary', sized_bytes(0, 8000))", "(b'etag', sized_bytes(0, 8000))"])],
              never=["FIELD_SECTION_TOO_LARGE", "FIELD_TOO_LARGE"])
    p.add("many lines of several sections", "each section counts for itself",
          ["m = response([(b'x-one', sized_bytes(0, 8000)), (b'x-two', sized_bytes(0, 8000)), (b'x-three', sized_bytes(0, 8000))], "
           "trailers=[(b'x-one', sized_bytes(0, 8000)), (b'x-two', sized_bytes(0, 8000))])"],
          never=["FIELD_SECTION_TOO_LARGE", "FIELD_TOO_LARGE"])
    done = p.run()
    ctx.level = "proof"
    ctx.coverage.update(
        scenarios=done, fields=n // 2, samples=p.samples(),
        rule="one note for several lines of a field with one value, never one for others; first value; members in order; text, "
             "characters and sizes of lines",
        explanation="each scenario is run through the abstract interpreter with names in any letter case and values left open "
                    "where they don't matter; sizes are intervals of lengths")
    ctx.assumptions.append("rules/fields_table.py says which fields allow one value only, as their specifications do")
