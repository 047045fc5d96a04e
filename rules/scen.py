"""Scenarios: families of messages with what every path through the linter must, and must never, say about them."""

import os

import re

from check import Broken
from sa.jobs import Base, WORKERS, run_jobs

PRELUDE = '''
from httplint import HttpRequestLinter, HttpResponseLinter


def OTHER():
    return (other_bytes(), any_bytes())


def response(fields=(), code=b"200", content=None, complete=True, trailers=None, related=None, head=False, start=None,
             no_content=False, base=""):
    r = HttpResponseLinter(start_time=start, _related=related, no_content=no_content)
    r.is_head_response = head
    r.base_uri = base
    r.process_response_topline(b"HTTP/1.1", code, b"OK")
    r.process_headers(list(fields))
    if content is not None:
        r.feed_content(content)
    r.finish_content(complete, trailers)
    return r


def request(fields=(), method=b"GET", uri=b"http://example.com/", content=None, complete=True, trailers=None, related=None,
            start=None, no_content=False):
    r = HttpRequestLinter(start_time=start, _related=related, no_content=no_content)
    r.process_request_topline(method, uri, b"HTTP/1.1")
    r.process_headers(list(fields))
    if content is not None:
        r.feed_content(content)
    r.finish_content(complete, trailers)
    return r

'''


class Dry:
    def ob(self, ok):
        pass


class Plan:
    def __init__(self, ctx, groups=None, prelude=""):
        self.ctx = ctx
        self.items = []
        self.groups = {}
        self.prelude = PRELUDE + prelude
        for g, names in (groups or {}).items():
            for n in names:
                self.groups.setdefault(n, []).append(g)

    def add(self, key, text, body, must=(), never=(), seen=None, counts=None, where=None):
        """key, text: the rule; body: source of the scenario.

        must/never: notes on every path/on no path; seen: {label: texts allowed}; counts: {group: allowed numbers};
        where: {note: texts allowed for (subject, field name)}."""
        if isinstance(body, str):
            body = [x for x in body.strip("\n").split("\n")]
            ind = len(body[0]) - len(body[0].lstrip())
            body = [x[ind:] for x in body]
        self.items.append(dict(key=key, text=text, body=body, must=list(must), never=list(never), seen=seen or {},
                               counts=counts or {}, where=where or {}))

    def run(self, base=None, limit=420, setup=None):
        ctx = self.ctx
        base = base or Base(ctx.repo)
        notes = {q.rsplit(".", 1)[-1] for q in base.L.e.classes} if hasattr(base.L.e, "classes") else None
        n = min(WORKERS * 3, len(self.items)) or 1
        jobs = []
        for i in range(n):
            part = list(range(i, len(self.items), n))
            src = self.prelude
            for k in part:
                src += f"def s{k}():\n" + "".join(f"    {x}\n" for x in self.items[k]["body"]) + "\n\n"
            jobs.append((f"b{i}", "$src", {"$src": src, "$runs": [f"s{k}" for k in part], "$groups": self.groups}))
        res = run_jobs(base, jobs, limit, setup)
        self.results = res
        done = 0
        anchors = {x for it in self.items for x in it["must"] + it["never"] + list(it["where"])}
        if notes is not None:
            gone = sorted(a for a in anchors if a not in notes)
            if gone:
                raise Broken(f"notes this check rests on are gone: {gone}")
        for j, r in sorted(res.items()):
            if not r["ok"]:
                ctx.unknown(f"batch {j}: not analysed:", r["error"])
                continue
            for fn, (out, degraded, alarms, why) in r["runs"].items():
                it = self.items[int(fn[1:])]
                if out is None and why is None and alarms and not degraded:
                    done += 1
                    ctx.report(f"{it['key']}: no end", f"{it['text']}\nit always ends in an exception: {' '.join(alarms)[:300]}\n"
                               "scenario:\n" + "\n".join(it["body"]))
                    continue
                if out is None:
                    ctx.unknown(f"{it['key']}: no path:", why or f"{alarms[:2]}")
                    continue
                if degraded and os.environ.get("SHOWLOST"):
                    print("LOST", it["key"], degraded[:3])
                if degraded and not self.judge(it, out, dry=True):
                    # what holds in spite of the lost precision does hold; what doesn't may be due to it
                    ctx.unknown(f"{it['key']}: too many paths:", str(degraded[:2]))
                    continue
                done += 1
                self.judge(it, out)
        if done < 0.4 * len(self.items):
            raise Broken(f"only {done} of {len(self.items)} scenarios could be analysed: {ctx.undecided[:3]}")
        return done

    def judge(self, it, out, dry=False):
        ctx = Dry() if dry else self.ctx
        scen = "\n".join(it["body"])
        failed = []

        def bad(kind, what):
            failed.append(kind)
            if dry:
                return
            ctx.report(f"{it['key']}: {kind}", f"{it['text']}\n{what}\nscenario:\n{scen}")

        for m in it["must"]:
            must, _ = out.get(("note", m), (False, ()))
            ctx.ob(must)
            if not must:
                some = ("note", m) in out
                bad(f"{m} missing", f"{m} is not reported{' on every path' if some else ''}")
        for m in it["never"]:
            ctx.ob(("note", m) not in out)
            if ("note", m) in out:
                must, v = out[("note", m)]
                bad(f"{m} wrong", f"{m} {'is' if must else 'may be'} reported: {' '.join(v)[:200]}")
        for label, allowed in it["seen"].items():
            must, v = out.get(("seen", label), (False, ()))
            ok = bool(v) and all(x in allowed for x in v)
            ctx.ob(ok)
            if not ok:
                bad(f"{label} differs", f"{label} is {' or '.join(v) or 'never reached'}; it should be "
                    f"{' or '.join(allowed)}")
        for g, allowed in it["counts"].items():
            must, v = out.get(("count", g), (False, ()))
            have = {int(x) for x in v} | (set() if must else {0})
            ctx.ob(have <= set(allowed))
            if not have <= set(allowed):
                bad(f"{g} count", f"{sorted(have)} notes about {g}; there should be {sorted(allowed)}")
        for m, allowed in it["where"].items():
            _, v = out.get(("note", m), (False, ()))
            wrong = [x for x in v if x not in allowed]
            ctx.ob(not wrong)
            if wrong:
                bad(f"{m} misplaced", f"{m} is attached to {' and '.join(wrong)}; it should be {' or '.join(allowed)}")
        return not failed

    def samples(self, n=25):
        step = max(1, len(self.items) // n)
        return [f"{it['key']}: must {it['must']} never {it['never']}"[:300] for it in self.items[::step]]
