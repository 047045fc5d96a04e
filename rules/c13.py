"""C13: a field's rules are found by its name alone, whatever its letter case."""

from .fields_table import ALIASES, DEPRECATED, MISSPELLED, UNNECESSARY, fields
from .scen import Plan


def run(ctx):
    p = Plan(ctx)
    fs = fields()
    for f in fs:
        side = f.side()
        for trailer in (False, True):
            lines = f"[OTHER(), (ci_bytes({f.low!r}), any_bytes()), OTHER()]"
            sec = "trailers" if trailer else "headers"
            use = f"m = {side}(trailers={lines})" if trailer else f"m = {side}({lines})"
            p.add(f"{f.name} in {sec}", f"a {f.name} line, in any letter case, among {sec} of any content is handled by the "
                  f"rules of {f.name}",
                  [use,
                   f"observe('name', m.{sec}.handlers[{f.low!r}].canonical_name)",
                   f"observe('parsed', {f.low!r} in m.{sec}.parsed)"],
                  seen={"name": [repr(f.name)], "parsed": ["True"]},
                  must=["FIELD_DEPRECATED"] if f.dep else [], never=[] if f.dep else ["FIELD_DEPRECATED"])
    for n in DEPRECATED:
        p.add(f"{n} deprecated", f"a {n} line, in any letter case, draws a note that the field is deprecated",
              [f"m = response([OTHER(), (ci_bytes({n.lower()!r}), any_bytes())])"], must=["FIELD_DEPRECATED"])
    for n in UNNECESSARY:
        p.add(f"{n} unnecessary", f"an {n} line with a value draws a note that it can be removed",
              [f"m = response([OTHER(), (ci_bytes({n.lower()!r}), b'x'), OTHER()])"], must=["UNNECESSARY_HEADER"],
              never=["FIELD_DEPRECATED"])
    for n, real in ALIASES.items():
        p.add(f"{n} alias", f"{n} is handled by the rules of {real}",
              [f"m = response([OTHER(), (ci_bytes({n!r}), any_bytes())])",
               f"observe('name', m.headers.handlers[{n!r}].canonical_name)"], seen={"name": [repr(real)]})
    for n in MISSPELLED:
        p.add(f"{n} alias", f"{n} is a misspelled Connection",
              [f"m = response([OTHER(), (ci_bytes({n!r}), any_bytes())])",
               f"observe('described', 'Connection' in m.headers.handlers[{n!r}].description)"],
              seen={"described": ["True"]})
    # no other name reaches a known field's rules
    quiet = ["FIELD_DEPRECATED", "UNNECESSARY_HEADER"]
    for side in ("request", "response"):
        p.add(f"other names in {side}s", "a line with any other name leads to no note of a known field",
              [f"m = {side}([OTHER(), OTHER()], trailers=[OTHER()])"],
              never=quiet + ["BAD_SYNTAX", "BAD_DATE_SYNTAX", "REQUEST_HDR_IN_RESPONSE", "RESPONSE_HDR_IN_REQUEST",
                             "SINGLE_HEADER_REPEAT"])
    near = ["content_type", "content_length", "cache_control", "etag2", "x-etag", "e-tag", "e_tag", "etags", "-etag", "etag-",
            "set-cookie3", "last_modified", "from_field", "x_pad", "connectiox", "__init__", "__doc__", "_description",
            "list_field", "utils", "singleton_field", "date-", "dates", "location2", "accept-", "via-", "vary2"]
    for n in near:
        b = n.encode()
        p.add(f"{n} is unknown", f"{n} is not the name of any field: its lines are not judged",
              [f"m = response([(({b!r}), any_bytes()), OTHER()])",
               f"observe('name', m.headers.handlers[{n!r}].canonical_name)"],
              seen={"name": [repr(n)]}, never=quiet + ["BAD_SYNTAX", "BAD_DATE_SYNTAX"])
    known = {f.low for f in fs} | {x.lower() for x in [*DEPRECATED, *UNNECESSARY, *ALIASES, *MISSPELLED]}
    made = set()
    for n in sorted(known):
        made |= {n.replace("-", "_"), n.replace("-", ""), n + "s", n + "-", "x-" + n, n[:-1], n.replace("-", "--"), n + "_", n + ".",
                 "_" + n, n + "-x", n[1:], n + "0", "-".join(n.split("-")[1:]), "-".join(n.split("-")[:-1])}
    made = sorted(x for x in made - known if x.strip("-_. "))
    for i in range(0, len(made), 6):
        part = made[i : i + 6]
        p.add(f"unknown names from {part[0]} to {part[-1]}", "a name that differs from a known one is not that field's",
              [f"m = response([{', '.join(f'({x.encode()!r}, any_bytes())' for x in part)}])"]
              + [f"observe({x!r}, m.headers.handlers[{x!r}].canonical_name)" for x in part],
              seen={x: [repr(x)] for x in part}, never=quiet + ["BAD_SYNTAX", "BAD_DATE_SYNTAX"])
    done = p.run()
    ctx.level = "other"
    ctx.coverage.update(
        scenarios=done, fields=len(fs), near_names=len(made) + len(near), deprecated=len(DEPRECATED), unnecessary=len(UNNECESSARY), samples=p.samples(),
        rule="on every path of a message with a line of that name in any letter case: the handler it reaches",
        explanation="each scenario is run through the abstract interpreter with the names' letter case and every value left "
                    "open; the handler that each line reaches and the notes on all paths are read off the final states")
    ctx.assumptions.append("rules/fields_table.py lists names and deprecation as IANA's registry and the specifications do")
