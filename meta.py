#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []
NA = {}


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique=None, note=None,
         level="other", na=None):
    P.append(dict(
        entry=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=why,
                   anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                                observe_at=list(observe), hook_needed=None)),
        technique=technique, note=note, level=level, na=na))


exec(open(os.path.join(HERE, "properties_src.py"), encoding="utf-8").read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as f:
        for p in P:
            assert len(p["entry"]["title"]) <= 80, p["entry"]["title"]
            assert p["entry"]["statement"].count(". ") <= 2, p["entry"]["id"]
            f.write(json.dumps(p["entry"], ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        pid = p["entry"]["id"]
        if p["na"] or not os.path.exists(os.path.join(HERE, "rules", pid.lower() + ".py")):
            na.append(dict(property=pid, reason=p["na"] or "no check has been built for it yet"))
            continue
        checks.append(dict(property=pid, quick_cmd=f"python3 check.py {pid} --tier quick",
                           thorough_cmd=f"python3 check.py {pid} --tier thorough",
                           technique=p["technique"], level=p["level"], level_note=p["note"]))
    man = dict(version=1, setup_cmd="python3 -c \"import sa.runs, sa.rx, check\"", checks=checks, not_applicable=na,
               notes="Every check reads /repo's current source (and catalogues) and runs none of it. "
                     "See DESIGN.md; known and fixed defects are in known-findings.txt.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
