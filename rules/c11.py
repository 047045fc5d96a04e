"""C11: no regular expression applied to data from the peer backtracks exponentially."""

from check import Broken
from sa import runs, rx
from .c01 import ASSUMPTIONS


def run(ctx):
    base = runs.make_base(ctx)
    jobs = runs.plan(base, ctx.tier)
    ok, bad = runs.execute(ctx, base, jobs)
    if len(ok) < len(jobs) * 0.5:
        raise Broken(f"only {len(ok)} of {len(jobs)} scenarios could be analysed")
    uses = {}
    for r in ok.values():
        for k, v in r["regex_uses"].items():
            uses.setdefault(k, set()).update(map(str, v))
    if len(uses) < 20:
        raise Broken("hardly any regular expression is applied to peer data: the taint anchors are gone")
    samples = []
    for (pat, flags, *how), users in sorted(uses.items(), key=str):
        who = ", ".join(sorted(users)[:4])
        try:
            w = rx.exponential(rx.build(rx.parse(pat, flags), flags))
        except Exception as why:
            ctx.unknown(f"pattern used by {who} not analysed:", f"{type(why).__name__}: {why}: {pat[:120]!r}")
            continue
        ctx.ob(not w)
        samples.append(f"{who}: {pat[:80]!r}")
        if w:
            ctx.report(f"exponential backtracking in the pattern used by {who}",
                       f"the pattern matches one string in exponentially many ways: repeating the pumped part doubles "
                       f"the work each time when the match finally fails.\nwitness: {w!r}\npattern: {pat!r}")
    ctx.coverage["patterns"] = len(uses)
    ctx.coverage["samples"] = samples[:20]
    ctx.coverage["explanation"] = (
        "taint analysis (abstract interpretation of all histories of C01) collects every pattern that is applied to "
        "text derived from the message; each is compiled to an automaton and searched for a state with two distinct "
        "loops over one word (exponential ambiguity), which decides exponential backtracking for the pattern")
    ctx.coverage["rule"] = "no pattern applied to peer data is exponentially ambiguous"
    ctx.assumptions += ASSUMPTIONS[:1] + ["polynomial ambiguity is not reported"]
