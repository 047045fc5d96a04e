"""C03: the HTML of a note's detail holds no markup taken from the message."""

from check import Broken
from sa import runs
from sa.atoms import R, V, C, S, Cls
from sa.state import Obj
from .c01 import ASSUMPTIONS


def setup(L, job):
    ev = {}
    L.extra_result = ev
    cur = {}
    plain = L.record

    def record(st, loc, node):
        cur.clear()
        names = sorted(a.qual.rsplit(".", 1)[-1] if isinstance(a, Cls) else "?" for a in loc.get("note", ()))
        cur.update(note=" ".join(names), by=L.e.qual(), stack=list(L.e.stackqual)[-4:])
        vrs = {}
        for v in loc.get("vrs", ()):
            o = st.get(v.addr) if hasattr(v, "addr") else None
            for k, (x, _) in (getattr(o, "ent", None) or {}).items():
                vrs[getattr(k, "v", "?")] = sorted(L.e.taint(st, x))
        cur["vars"] = vrs
        plain(st, loc, node)

    def seen(e, st, args, node):
        if not cur:
            return
        t = e.taint(st, args[0])
        texts = [a for a in args[0] if isinstance(a, S) and "lt" in a.taint]
        if texts:
            ev.setdefault(("detail of " + cur["note"], cur["by"]), dict(cur))

    def html(e, st, args, node):
        ev.setdefault(("Markup() of message text", e.qual()), dict(cur, stack=list(e.stackqual)[-4:]))

    L.record = record
    L.e.hooks["markdown"] = seen
    L.e.hooks["html"] = html


def run(ctx):
    base = runs.make_base(ctx, with_catalog=True)
    jobs = runs.plan(base, ctx.tier)
    ok, bad = runs.execute(ctx, base, jobs, setup=setup)
    if len(ok) < len(jobs) * 0.5:
        raise Broken(f"only {len(ok)} of {len(jobs)} scenarios could be analysed: "
                     + next(iter(bad.values()))["error"][:300])
    found = {}
    for n, r in ok.items():
        ctx.ob(not r["extra"], n=max(1, r["contexts"]))
        for k, v in r["extra"].items():
            if r["degraded"]:
                ctx.unknown("uncertain: " + " ".join(k), n)
            else:
                found.setdefault(k, (v, []))[1].append(n)
    for (what, by), (v, names) in sorted(found.items()):
        ctx.report(f"{what} made in {by}",
                   f"{what}, made in {by}: text from the message reaches the renderer outside code, so markup in it "
                   f"becomes part of the HTML.\nvariables and what they may hold: {v.get('vars')}\n"
                   f"call path: {' > '.join(v['stack'])}\nfields in the message: {', '.join(sorted(names)[:6])}")
    ctx.coverage["explanation"] = (
        "abstract interpretation of whole linting histories with every note rendered from every template (English and "
        "each catalogue's), following text from the message to the Markdown renderer and tracking, for each text, "
        "whether it can hold markup, backticks and line breaks and whether each piece of markup sits in a closed code "
        "span or an indented code block")
    ctx.coverage["rule"] = "text from the message that can hold markup reaches the renderer only inside code"
    ctx.assumptions += ASSUMPTIONS
    ctx.assumptions.append("Python-Markdown escapes the content of code spans and indented code blocks")
