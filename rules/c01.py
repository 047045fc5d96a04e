"""C01: no exception leaves the linting of a message, whatever the peer sent."""

from check import Broken
from sa import runs, src
from . import parallel

RENDER = ("render_note", "use", "Note._get_summary", "Note._get_detail", "Note.__str__", "Note.__eq__")


def rendering(stack):
    return any(q.rsplit("$h.", 1)[-1] in RENDER or q.endswith(tuple("." + x for x in RENDER[2:])) for q in stack)


def setup(L, job):
    L.record = lambda st, loc, node: None  # rendering is C02's


def run(ctx):
    base = runs.make_base(ctx)
    jobs = runs.plan(base, ctx.tier)
    if len(jobs) < 20:
        raise Broken("hardly any field parsers found")
    ok, bad = runs.execute(ctx, base, jobs, setup=setup)
    if len(ok) < len(jobs) * 0.5:
        raise Broken(f"only {len(ok)} of {len(jobs)} scenarios could be analysed: "
                     + next(iter(bad.values()))["error"][:300])
    sites = 0
    for key, ((where, stack), names) in sorted(runs.gather(ok, "alarms").items(), key=str):
        if rendering(stack):
            continue  # what rendering a note may raise is C02's
        sites += 1
        q, exc, desc = key[:3]
        ctx.report(f"raises {exc} in {q}: {desc}",
                   f"{where}: {desc} raises {exc}, which nothing between it and the caller of the linter handles.\n"
                   f"call path: {' > '.join(stack)}\nfields in the message: {', '.join(sorted(names)[:6])}")
    parallel.check(ctx, src.Package(ctx.repo))
    for n in ok:
        ctx.ob(not ok[n]["alarms"])
    ctx.coverage["explanation"] = (
        "abstract interpretation of the package's own source over whole linting histories (construct, top line, "
        "headers, body, trailers, finish, read every note): one history per field and direction, with any number of "
        "lines of the field, any values, any body, any top line, any start time; every operation that can raise is a "
        "site, and a site whose exception no handler on the path catches is reported")
    ctx.coverage["rule"] = "no exception of any class escapes a public linting call"
    ctx.assumptions += ASSUMPTIONS


ASSUMPTIONS = [
    "the models of the standard library and of babel, markdown, markupsafe, http_sf, chardet, brotli in sa/m_*.py",
    "MemoryError, RecursionError outside json, KeyboardInterrupt and signals are out of scope",
    "fields are analysed one kind at a time (plus the listed groups); sites the analysis cannot settle are listed as "
    "undecided and not reported",
]
