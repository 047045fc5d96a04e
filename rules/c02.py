"""C02: every note renders, in every shipped locale."""

import ast
import re

from check import Broken
from sa import catalog, runs, src
from .c01 import ASSUMPTIONS, rendering


def run(ctx):
    base = runs.make_base(ctx, with_catalog=True)
    if not base.L.e.catalog:
        raise Broken("no message catalogues found")
    jobs = runs.plan(base, ctx.tier)
    ok, bad = runs.execute(ctx, base, jobs)
    if len(ok) < len(jobs) * 0.5:
        raise Broken(f"only {len(ok)} of {len(jobs)} scenarios could be analysed: "
                     + next(iter(bad.values()))["error"][:300])
    notes = set()
    for n, r in ok.items():
        notes.update(k[0] for k in r["events"])
    for key, ((where, stack), names) in sorted(runs.gather(ok, "alarms").items(), key=str):
        if not rendering(stack):
            continue
        q, exc, desc = key[:3]
        ctx.report(f"rendering raises {exc} in {q}: {desc}",
                   f"{where}: {desc} raises {exc} while a note is being rendered.\n"
                   f"call path: {' > '.join(stack)}\nfields in the message: {', '.join(sorted(names)[:6])}")
    for n in ok:
        ctx.ob(not any(rendering(v[1]) for v in ok[n]["alarms"].values()))
    ctx.coverage["templates_read"] = unfilled(ctx, ok)
    ctx.coverage["notes_rendered"] = len(notes)
    ctx.coverage["messages_in_catalogues"] = len(base.L.e.catalog)
    ctx.coverage["explanation"] = (
        "abstract interpretation of every linting history of C01 with every note it adds rendered (summary, detail, "
        "str, comparison) at the point where it is added, for every combination of variables that can reach it, in "
        "English and in every shipped catalogue's translation of the template")
    ctx.coverage["rule"] = ("no exception of any class escapes the rendering of a note; no template names a variable it is "
                            "given in a way that isn't filled in")
    ctx.assumptions += ASSUMPTIONS


def unfilled(ctx, ok):
    """Templates that hold {name} where name is a variable the note is given."""
    given = {}
    for r in ok.values():
        for (q, _), names in r["events"].items():
            given.setdefault(q, set()).update(names)
    n = 0
    pkg = src.Package(ctx.repo)
    for dotted, m in pkg.mods.items():
        for c in ast.walk(m.tree):
            if not isinstance(c, ast.ClassDef) or f"{dotted}.{c.name}" not in given:
                continue
            for s in c.body:
                if not (isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name)
                        and s.targets[0].id in ("_summary", "_text")):
                    continue
                for x in ast.walk(s.value):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str):
                        n += 1
                        left = sorted(set(re.findall(r"(?<!%)\{(\w+)\}", x.value)) & given[f"{dotted}.{c.name}"])
                        ctx.ob(not left)
                        if left:
                            ctx.report(f"unfilled {{{left[0]}}} in {c.name}.{s.targets[0].id}",
                                       f"{m.rel}: {c.name} is given {left[0]}, but its template shows {{{left[0]}}} as it "
                                       f"stands: placeholders have the form %({left[0]})s.")
    return n
