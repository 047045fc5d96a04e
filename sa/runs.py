"""Scenario plans shared by the checks that run the abstract interpreter."""

from __future__ import annotations

import ast
import os
import time

from . import catalog
from .jobs import Base, run_jobs

OTHER = {
    "unknown": ["x-something-nobody-knows"],
    "odd-name": ["bad name", "", "-", "_x", "\u20ac", "content_type"],
    "deprecated": ["cookie2", "content-md5", "dnt"],
    "unnecessary": ["x-powered-by", "x-aspnet-version", "x-xss-protection"],
    "alias": ["x-cnection", "nncoection", "xx-pad", "x-pad-for-netscrape-bug"],
}

BIG = ["set-cookie", "link", "content-security-policy", "content-security-policy-report-only", "accept",
       "accept-language", "accept-encoding", "te", "transfer-encoding", "cache-control"]


def names_of(base):
    return ["from" if m == "from_field" else m.replace("_", "-") for m in base.registry()]


def singles(names, kinds):
    jobs = []
    for k in kinds:
        for n in names:
            sub = {"NAMES": repr([n])}
            if n == "set-cookie":
                sub["$paths"] = 6
            jobs.append((f"{k}:{n}", k, sub))
        for n, ns in OTHER.items():
            jobs.append((f"{k}:({n})", k, {"NAMES": repr(ns)}))
    order = {n: i for i, n in enumerate(BIG)}
    jobs.sort(key=lambda j: (order.get(j[0].split(":", 1)[1], 99), j[0]))
    return jobs


def interplay(base):
    """[(module, names, sides)]: fields whose handling looks at one another, found from the field names each module
    of the package mentions. sides: does the module also look at the other message?"""
    e = base.L.e
    names = set(names_of(base))
    skip = {e.package + ".field.deprecated", e.package + ".field.unnecessary"}
    trees = {}
    for dotted in sorted(e.mods):
        if not dotted.startswith(e.package) or dotted in skip:
            continue
        path = os.path.join(base.root, *dotted.split("."))
        for p in (path + ".py", os.path.join(path, "__init__.py")):
            if os.path.exists(p):
                with open(p, encoding="utf-8") as f:
                    trees[dotted] = ast.parse(f.read())
                break
    info = {}
    for dotted, tree in trees.items():
        refs, imports, other, looks = set(), set(), False, False
        todo = [n for n in tree.body]
        while todo:
            n = todo.pop()
            if isinstance(n, ast.ClassDef) and any("Test" in ast.unparse(b) for b in n.bases):
                continue
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.lower() in names:
                refs.add(n.value.lower())
            if isinstance(n, ast.Attribute) and n.attr in ("request", "response", "_request", "_related"):
                other = True
            if isinstance(n, ast.Attribute) and n.attr in ("parsed", "text", "handlers", "trailers"):
                looks = True
            if isinstance(n, ast.ImportFrom) and n.module:
                imports.add(n.module)
            todo.extend(ast.iter_child_nodes(n))
        info[dotted] = (refs, imports, other, looks)
    pre = e.package + ".field.parsers."
    out = []
    for dotted, (refs, imports, other, looks) in info.items():
        own = dotted[len(pre):].replace("_", "-") if dotted.startswith(pre) else None
        group = set(refs)
        if own in names:
            group.add(own)
            for m in imports:
                if m in info and not m.startswith(pre) and m != e.package and info[m][3]:
                    group |= info[m][0]
                    looks = True
                    other = other or (info[m][2] and bool(info[m][0]))
        if looks and (len(group) > 1 or (other and group)):
            out.append((dotted, sorted(group), other))
    return out


def groups(base):
    """Histories with the related fields together, and request and response together."""
    jobs = {}
    e = base.L.e
    for dotted, names, other in interplay(base):
        sub = {"NAMES": repr(names)}
        if "set-cookie" in names:
            sub["$paths"] = 4
        tag = dotted[len(e.package) + 1:].replace("field.parsers.", "")
        key = (tuple(names), other)
        if key in jobs:
            continue
        if other:
            jobs[key] = ("pair:" + tag, "pair", dict(sub, QNAMES=repr(names)))
        else:
            jobs[key] = ("group:" + tag, "res", sub)
    return list(jobs.values())


def plan(base, tier, kinds=("res", "req")):
    names = names_of(base)
    gs = groups(base)
    one = singles(names, kinds)
    if tier != "thorough":
        # the costly fields that a group holds need no scenario of their own
        held = {n for _, k, sub in gs if k == "res" for n in ast.literal_eval(sub["NAMES"])}
        one = [j for j in one if not (j[1] == "res" and j[0][4:] in held and j[0][4:] in BIG)]
    return gs + one


def execute(ctx, base, jobs, limit=None, setup=None):
    """Run the scenarios; results by name. Records in ctx what was and wasn't answered."""
    t = time.time()
    limit = limit or (600 if ctx.tier == "quick" else 1800)
    res = run_jobs(base, jobs, limit, setup=setup)
    ok = {n: r for n, r in res.items() if r["ok"]}
    bad = {n: r for n, r in res.items() if not r["ok"]}
    for n, r in sorted(bad.items()):
        ctx.unknown(f"scenario {n} gave no answer:", r["error"][:300])
    for n, r in sorted(ok.items()):
        if r["degraded"]:
            for k in r["degraded"]:
                ctx.unknown(f"scenario {n} can't be followed in {k[0]}:", k[1])
            for k in r["alarms"]:
                ctx.unknown("uncertain: " + " ".join(map(str, k)), f"[{n}]")
            r["alarms"] = {}
    reached = set()
    for r in ok.values():
        reached.update(r["reached"])
    und = {}
    for n, r in ok.items():
        for k in r["undecided"]:
            und.setdefault(("undecided",) + tuple(k), n)
        for k in r["unsupported"]:
            und.setdefault(("unsupported",) + tuple(k), n)
        for k in r["unmodelled"]:
            und.setdefault(("unmodelled", k), n)
    for k, n in sorted(und.items(), key=str):
        ctx.unknown(" ".join(str(x) for x in k), f"[{n}]")
    ctx.coverage.update(
        scenarios=len(jobs),
        scenarios_answered=len(ok),
        scenarios_without_answer=sorted(bad),
        functions_reached=len(reached),
        functions=sorted(reached)[:1000],
        calls_interpreted=sum(r["calls"] for r in ok.values()),
        notes_created=sum(r["adds"] for r in ok.values()),
        note_contexts=sum(r["contexts"] for r in ok.values()),
        analysis_wall_s=round(time.time() - t, 1),
        max_worker_mb=max((r.get("rss", 0) for r in res.values()), default=0),
    )
    return ok, bad


def make_base(ctx, with_catalog=False):
    return Base(ctx.repo, catalog.merged(ctx.repo) if with_catalog else None)


def gather(ok, what):
    """{key: (value, [scenario])}"""
    out = {}
    for n, r in ok.items():
        for k, v in r[what].items():
            out.setdefault(k, (v, []))[1].append(n)
    return out
