"""C16: the shipped catalogues agree with their sources and keep every placeholder."""

import ast
import os
import re

from check import Broken
from sa import catalog


def plural_forms(header):
    m = re.search(r"Plural-Forms:\s*nplurals\s*=\s*(\d+)\s*;\s*plural\s*=\s*([^;\n]+);?", header)
    return (int(m.group(1)), m.group(2).strip()) if m else (None, None)


def plural_range(expr):
    """Values a C plural expression takes, found from its syntax for the forms in use; None when unknown."""
    e = expr.strip().strip("()").strip()
    if re.fullmatch(r"\d+", e):
        return {int(e)}
    if re.fullmatch(r"n\s*(!=|==|>|<|>=|<=)\s*\d+", e):
        return {0, 1}
    return None


def fmt(ctx, loc, text):
    return sorted({(k, c) for k, c, _ in catalog.directives(text)})


def run(ctx):
    locs = catalog.locales(ctx.repo)
    if len(locs) < 2:
        raise Broken("the message catalogues are gone")
    n = 0
    base = None
    for loc, (po, mo) in locs.items():
        if po is None:
            raise Broken(f"no message sources for {loc}")
        if mo is None:
            ctx.report(f"{loc}: no compiled catalogue", f"{loc} ships sources but no compiled catalogue: every note "
                       "is shown in English there")
            continue
        try:
            entries = catalog.read_po(po)
            compiled = catalog.read_mo(mo)
        except catalog.CatalogError as why:
            ctx.report(f"{loc}: catalogue not readable", str(why))
            continue
        want = {}
        header = None
        for e in entries:
            if e["id"] == "":
                header = e
            if e["obsolete"] or e["fuzzy"] or e["id"] == "" or not any(e["strs"].values()):
                continue
            key = (e["ctx"], e["id"], e["plural"])
            if key in want:
                ctx.report(f"{loc}: two entries for {e['id'][:60]!r}", f"{po}:{e['line']}")
            want[key] = [e["strs"][k] for k in sorted(e["strs"])]
        for key, strs in sorted(want.items(), key=str):
            n += 1
            got = compiled.get(key)
            if got is None:
                ctx.report(f"{loc}: not compiled: {key[1][:60]!r}",
                           f"{po} translates {key[1]!r} but the compiled catalogue lacks it: the note is shown in "
                           "English")
            elif got != strs:
                ctx.report(f"{loc}: compiled differently: {key[1][:60]!r}",
                           f"{po} has {strs!r}\nthe compiled catalogue has {got!r}")
        for key in sorted(set(compiled) - set(want), key=str):
            if key[1]:
                ctx.report(f"{loc}: compiled without a source: {key[1][:60]!r}",
                           f"{mo} has {key[1]!r}, which {po} doesn't (or only as fuzzy or obsolete)")
        head = compiled.get((None, "", None), [""])[0]
        if not re.search(r"charset=utf-8", head, re.I):
            ctx.report(f"{loc}: catalogue header has no UTF-8 charset", head[:300])
        nplurals, expr = plural_forms(head)
        rng = plural_range(expr) if expr else None
        for key, strs in sorted(compiled.items(), key=str):
            if not key[1]:
                continue
            ids = [key[1]] + ([key[2]] if key[2] else [])
            formatted = any(catalog.percent_formatted(x) for x in ids)
            if key[2]:
                if nplurals is None:
                    ctx.report(f"{loc}: no Plural-Forms", "plural messages need the header")
                elif len(strs) != nplurals:
                    ctx.report(f"{loc}: {len(strs)} plural forms of {key[1][:60]!r}",
                               f"Plural-Forms says nplurals={nplurals}")
                if rng and max(rng) >= len(strs):
                    ctx.report(f"{loc}: plural expression reaches form {max(rng)}",
                               f"{key[1]!r} has {len(strs)} forms")
            if not formatted:
                continue
            try:
                allowed = set()
                for x in ids:
                    allowed |= {(k, c) for k, c, _ in catalog.directives(x)}
                last = {(k, c) for k, c, _ in catalog.directives(ids[-1])}
            except catalog.CatalogError:
                ctx.unknown(f"{loc}: {key[1][:60]!r}", "the English text is not a format")
                continue
            for i, s in enumerate(strs):
                ctx.ob()
                try:
                    got = {(k, c) for k, c, _ in catalog.directives(s)}
                except catalog.CatalogError as why:
                    ctx.report(f"{loc}: broken format in {key[1][:60]!r}", f"{why}\ntranslation: {s!r}")
                    ctx.discharged -= 1
                    continue
                # any plural form may drop what the singular drops
                floor = last if len(ids) == 1 else (last & {(k, c) for k, c, _ in catalog.directives(ids[0])})
                if not floor <= got or not got <= allowed:
                    ctx.discharged -= 1
                    ctx.report(f"{loc}: placeholders changed in {key[1][:60]!r}",
                               f"English has {sorted(allowed)}, the translation has {sorted(got)}: the reader loses or "
                               f"misreads what the message is about, or rendering fails.\ntranslation: {s!r}")
            if any(s == "" for s in strs):
                ctx.report(f"{loc}: empty translation of {key[1][:60]!r}", "the note is shown without text")
        if base is None:
            base = set(compiled)
    ctx.coverage["locales"] = sorted(locs)
    ctx.coverage["entries"] = n
    ctx.coverage["explanation"] = (
        "the .po sources and the compiled .mo files of every locale are parsed as data; each active entry must be "
        "compiled, unchanged, with nothing extra, and each translation must carry the placeholders of the English "
        "text, well formed, in as many plural forms as its header declares")
    ctx.coverage["rule"] = "po = mo; placeholders preserved; plural forms complete"
