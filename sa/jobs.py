"""Run linting scenarios through the abstract interpreter, one forked worker per scenario."""

from __future__ import annotations

import gc
import os
import pickle
import resource
import signal
import sys
import time
import traceback

from .atoms import *
from .engine import AnalysisBroken
from .lint import HARNESS_FN, Lint
from .state import DictO, Obj

HERE = os.path.dirname(os.path.abspath(__file__))
WORKERS = max(2, min(8, os.cpu_count() or 2))


def harness(kind):
    with open(os.path.join(HERE, f"harness_{kind}.py"), encoding="utf-8") as f:
        return f.read()


class Base:
    """The package after import, shared by every scenario."""

    def __init__(self, root, catalog=None):
        self.root = root
        self.L = Lint(root, "", catalog)

    def registry(self):
        """(names with a parser module, alias names, deprecated names, unnecessary names)."""
        e = self.L.e
        pre = e.package + ".field.parsers."
        mods = sorted(m[len(pre):] for m in e.mods if m.startswith(pre) and "." not in m[len(pre):])
        return mods


def summarise(L, ok):
    e = L.e
    return dict(
        ok=ok,
        alarms={k: tuple(v) for k, v in e.alarms.items()},
        undecided={k: tuple(v) for k, v in e.undecided.items()},
        unsupported={k: str(v) for k, v in e.unsupported.items()},
        unmodelled={k: sorted(v) for k, v in e.unmodelled.items()},
        global_writes={k: tuple(v) if isinstance(v, (tuple, list)) else str(v) for k, v in e.global_writes.items()},
        regex_uses={k: sorted(v) for k, v in e.regex_uses.items()},
        ext_args={k: sorted(v) for k, v in e.ext_args.items()},
        degraded=sorted(e.degraded),
        notes=sorted(L.notes_seen, key=str),
        events={k: sorted(v) for k, v in L.note_events.items()},
        extra=getattr(L, "extra_result", None),
        reached=sorted(e.reached),
        adds=L.notes_adds,
        contexts=len(L.note_memo),
        calls=e.memo_hit + e.memo_miss,
    )


def _child(base, job, fd, setup):
    gc.disable()  # values and states are immutable and hold no cycles; collecting takes half the time
    t = time.time()
    name, kind, subst = job[:3]
    try:
        L = base.L
        e = L.e
        src = subst["$src"] if kind == "$src" else harness(kind)
        e.path_limit = subst.get("$paths", e.path_limit)
        for k, v in subst.items():
            if k[0] == "$":
                continue
            src = src.replace("@" + k + "@", v)
        L.load(src)
        if setup:
            setup(L, job)
        if kind == "$src":
            L.render, L.logging, e.scenario = False, True, True
            L.groups = subst.get("$groups", {})
            runs = {}
            for fn in subst["$runs"]:
                e.alarms.clear()
                e.degraded.clear()
                try:
                    out, why = L.outcome(fn), None
                except (AnalysisBroken, RecursionError) as err:
                    out, why = None, f"{type(err).__name__}: {err}"
                runs[fn] = out, sorted(e.degraded), sorted(map(str, e.alarms)), why
            res = summarise(L, True)
            res["runs"] = runs
        else:
            L.run()
            res = summarise(L, True)
    except BaseException as why:  # reported to the parent
        res = dict(ok=False, error=f"{type(why).__name__}: {why}", trace=traceback.format_exc()[-1500:])
    res["wall"] = time.time() - t
    res["rss"] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
    data = pickle.dumps(res)
    with os.fdopen(fd, "wb") as f:
        f.write(data)
    os._exit(0)


def run_jobs(base, jobs, limit, setup=None, workers=WORKERS, log=None):
    """[(name, kind, subst)] -> {name: result}; each within `limit` seconds."""
    todo = list(jobs)
    live = {}
    out = {}
    import select

    sys.stdout.flush()
    sys.stderr.flush()
    while todo or live:
        while todo and len(live) < workers:
            job = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                signal.alarm(int(limit))
                _child(base, job, w, setup)
                os._exit(1)
            os.close(w)
            live[r] = (pid, job, [], time.time())
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for r in ready:
            chunk = os.read(r, 1 << 20)
            pid, job, buf, t = live[r]
            if chunk:
                buf.append(chunk)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            data = b"".join(buf)
            if data:
                res = pickle.loads(data)
            else:
                res = dict(ok=False, error="no answer within the limit", wall=time.time() - t, trace="")
            out[job[0]] = res
            if log:
                log(job[0], res)
    return out
