#!/usr/bin/env python3
"""Decide one property of httplint from /repo's current source.

usage: check.py <property id> [--tier quick|thorough] [--repo DIR]

exit 0: nothing reported; 1: a VIOLATION line was printed; 2: the analysis could not be made.
"""

import argparse
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

if __name__ == "__main__" and os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)


class Broken(Exception):
    """The analysis cannot be made (a construct it rests on is gone)."""


class Ctx:
    def __init__(self, prop, tier, repo):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == "thorough"
        self.repo = repo
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.found = {}  # key -> text
        self.undecided = []
        self.coverage = {}
        self.assumptions = []
        self.level = "other"
        self.obligations = 0
        self.discharged = 0
        self.start = time.time()

    def report(self, key, text):
        """A violation. key: the rule and construct, without line numbers."""
        self.found.setdefault(key, text)

    def unknown(self, key, text=""):
        """Something this analysis cannot decide: told in the evidence, never an alarm."""
        self.undecided.append(f"{key} {text}".strip())

    def ob(self, ok=True, n=1):
        self.obligations += n
        if ok:
            self.discharged += n

    def say(self, text):
        print(text, flush=True)


def known_findings(prop):
    out = {}
    path = os.path.join(HERE, "known-findings.txt")
    if not os.path.exists(path):
        return out
    with open(path, encoding="utf-8") as f:
        for line in f:
            line = line.strip()
            if not line.startswith("known: "):
                continue
            head, _, what = line[len("known: "):].partition(" -- ")
            fields = dict(x.split("=", 1) for x in head.split(" | "))
            if fields["property"] == prop:
                out[fields["key"]] = what
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    ctx = Ctx(a.prop, a.tier, os.path.abspath(a.repo))
    mod = importlib.import_module("rules." + a.prop.lower())
    try:
        mod.run(ctx)
    except Exception as why:
        print(f"ANALYSIS-BROKEN property={a.prop} {type(why).__name__}: {why}")
        traceback.print_exc(limit=8)
        write_evidence(ctx, {}, {})
        return 2
    known = known_findings(a.prop)
    new = {k: v for k, v in ctx.found.items() if k not in known}
    old = {k: v for k, v in ctx.found.items() if k in known}
    for k in sorted(old):
        print(f"KNOWN-FINDING: property={a.prop} {known[k] or old[k]}")
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for k in sorted(new)[:50]:
        name = f"{a.prop}-{hashlib.sha256(k.encode()).hexdigest()[:10]}.txt"
        path = os.path.join(rdir, name)
        with open(path, "w", encoding="utf-8") as f:
            f.write(f"property {a.prop}\nrule and construct: {k}\n\n{new[k]}\n\n"
                    f"run again: python3 {HERE}/check.py {a.prop} --tier {a.tier}\n")
        print(f"VIOLATION property={a.prop} replay={path}")
        print("  " + k)
        print("  " + new[k].replace("\n", "\n  ")[:1500])
    write_evidence(ctx, new, old)
    print(f"{a.prop} {a.tier}: {len(new)} violation(s), {len(old)} known, {len(ctx.undecided)} undecided, "
          f"{time.time() - ctx.start:.1f}s")
    return 1 if new else 0


def write_evidence(ctx, new, old):
    cov = dict(ctx.coverage)
    if ctx.obligations:
        cov["obligations"] = ctx.obligations
        cov["discharged"] = ctx.discharged
    cov.setdefault("explanation", "no coverage recorded")
    cov["undecided"] = ctx.undecided[:200]
    cov["violation_keys"] = sorted(new)
    cov["known_findings"] = sorted(old)
    ev = {
        "property": ctx.prop,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": ctx.level,
        "coverage": cov,
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.start, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", ctx.prop + ".json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")


if __name__ == "__main__":
    sys.exit(main())
