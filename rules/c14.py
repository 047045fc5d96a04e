"""C14: fields are taken only in the kind of message their specification gives them meaning in."""

from .fields_table import fields
from .scen import Plan

NOTE = {"q": ("request", "REQUEST_HDR_IN_RESPONSE"), "r": ("response", "RESPONSE_HDR_IN_REQUEST")}


def run(ctx):
    p = Plan(ctx)
    n = 0
    for f in fields():
        if f.way is None:
            continue
        n += 1
        for side, way, note in (("request", "q", "RESPONSE_HDR_IN_REQUEST"), ("response", "r", "REQUEST_HDR_IN_RESPONSE")):
            right = f.way in (way, "b")
            for sec in ("headers", "trailers"):
                lines = f"[OTHER(), (ci_bytes({f.low!r}), any_bytes()), (ci_bytes({f.low!r}), any_bytes())]"
                use = f"m = {side}({lines})" if sec == "headers" else f"m = {side}(trailers={lines})"
                body = [use]
                if not right:
                    body.append(f"observe('value', bool(m.{sec}.parsed[{f.low!r}]))")
                both = ["RESPONSE_HDR_IN_REQUEST", "REQUEST_HDR_IN_RESPONSE"]
                p.add(f"{f.name} in the {sec} of {side}s",
                      f"{f.name} {'has' if right else 'has no'} meaning in {side}s"
                      + ("" if right else ": it is reported, and its value ignored"),
                      body, must=[] if right else [note], never=both if right else [x for x in both if x != note],
                      seen={} if right else {"value": ["False"]},
                      where={} if right else {note: [f"('offset-1', {f.name!r})", f"('offset-2', {f.name!r})"]})
    done = p.run()
    ctx.level = "other"
    ctx.coverage.update(
        scenarios=done, fields=n, samples=p.samples(),
        rule="in the wrong kind of message each line of the field is reported and the parsed value is nothing; in the right "
             "kind it never is",
        explanation="two lines of each field, of any letter case and value, in the headers and trailers of requests and "
                    "responses; all paths through the linter are enumerated by the abstract interpreter")
    ctx.assumptions.append("rules/fields_table.py gives the directions of the specifications; four fields whose "
                           "specifications leave it open are not judged")
