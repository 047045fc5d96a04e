"""What text from a message may do to the Markdown it is put into: labels carried in a text's taint.

lt  may hold markup that the renderer would let through (`<`, or `[` and `(`) outside code
sp  holds such markup, each piece inside its own closed code span
bl  holds such markup, each piece on a line of an indented code block
bt  may hold a backtick        nl, cr  may hold a line break
es  holds a code span that may be empty (two backticks, which pair with later ones)
A text with sym ("op",) ends inside a code span it opened itself; what follows up to the next backtick is in code.
"""

from __future__ import annotations

import re

from .atoms import C, HAZ, S

LABELS = HAZ | frozenset(["sp", "es", "bl"])
BREAKS = frozenset(["bt", "nl", "cr"])
BLOCK = re.compile(r"\n[ \t]*\n(?: {4,}|\t)[^\n]*(\n(?: {4,}|\t)[^\n]*)*\Z")
GAP = re.compile(r"\n[ \t]*\n")


def ticks(text):
    """Parity of the backtick runs in the last paragraph of text; and is there a paragraph break?"""
    m = None
    for m in GAP.finditer(text):
        pass
    last = text[m.end():] if m else text
    return len(re.findall("`+", last)) % 2, m is not None


def first_ticks(text):
    """Parity of the backtick runs of text before its first paragraph break."""
    m = GAP.search(text)
    return len(re.findall("`+", text[:m.start()] if m else text)) % 2


def hazards(a):
    """The labels of one text that matter where it is put."""
    if a.ci is not None or not a.taint & LABELS:
        return frozenset()
    t = a.taint & LABELS
    if a.mx is not None and a.mx <= 1:
        t = t - {"lt", "nl", "cr"}
    return t


def labels(parts):
    """(labels, open) of the concatenation of parts (each a set of alternatives)."""
    all_t = frozenset().union(*[a.taint for p in parts for a in p if isinstance(a, S)])
    if not all_t & LABELS:
        return all_t, False
    info = []
    broken = [False]
    for p in parts:
        consts = [a.v for a in p if isinstance(a, C) and isinstance(a.v, str)]
        texts = [a for a in p if isinstance(a, S)]
        t = frozenset().union(*[hazards(a) for a in texts])
        seen = {ticks(c) for c in consts}
        if t & BREAKS:
            broken[-1] = True
        info.append((consts, texts, t, seen, len(broken) - 1))
        if not texts and seen and all(g for _, g in seen):
            broken.append(False)
    out = set(all_t - LABELS)
    parity, empty, tail = 0, False, ""
    inspan = False  # a hazard stands in a span opened in this paragraph
    for consts, texts, t, seen, par in info:
        safe = not broken[par] and not empty
        if texts:
            if not consts and all(a.sym is not None and a.sym[0] == "op" for a in texts):
                out |= t - {"lt"}
                if parity == 0 and safe:
                    out.add("sp")
                    parity = 1
                else:
                    out.add("lt")
                    parity = None
                tail = "x"
                continue
            block = bool(BLOCK.search(tail))
            if "sp" in t:
                out.add("sp" if parity == 0 and safe else "lt")
            if "lt" in t:
                if block and not t & {"nl", "cr"}:
                    out.add("bl")
                elif parity == 1 and safe:
                    out.add("sp")
                    inspan = True
                else:
                    out.add("lt")
            if "es" in t or (parity == 1 and any(a.ml == 0 and hazards(a) for a in texts)):
                out.add("es")
                empty = True
            if "bl" in t:
                parity = None
            out |= t & (BREAKS | {"bl"})
            tail += "x"
        if consts:
            gap = any(g for _, g in seen)
            if gap and inspan and parity is not None:
                if any((parity + first_ticks(c)) % 2 for c in consts if ticks(c)[1]):
                    out.add("lt")  # the span is not closed in its paragraph, so it is none
                if all(g for _, g in seen):
                    inspan = False
            if len(seen) == 1:
                k = next(iter(seen))[0]
                parity = k if gap else (None if parity is None else parity ^ k)
            elif any(k or g for k, g in seen):
                parity = None
            if not texts:
                if gap and all(g for _, g in seen):
                    empty = False
                tail = (tail + consts[0])[-300:] if len(consts) == 1 else "x"
    if parity == 1 and "sp" in out and "lt" not in out:
        out.add("lt")  # where it's forgotten that the text is open, it counts as bare
        return frozenset(out), True
    return frozenset(out), False


def replaced(t, old, new):
    """Labels after text.replace(old, new) with constants."""
    if not t & LABELS:
        return t
    t = set(t)
    back = set()
    if "`" in old and t & {"sp"}:
        back.add("lt")
        t -= {"sp", "es"}
    if ("\n" in old or "\r" in old) and "bl" in t:
        back.add("lt")
        t.discard("bl")
    for ch, lab in (("`", "bt"), ("<", "lt"), ("\n", "nl"), ("\r", "cr")):
        if old == ch and ch not in new:
            t.discard(lab)
        if ch in new and lab != "lt":
            t.add(lab)
    return frozenset(t | back)


def without(t, chars):
    """Labels once none of these characters is left."""
    for ch in chars:
        t = replaced(t, ch, "")
    return t


def cut(t):
    """Labels of a piece of a text."""
    if t & {"sp", "bl"}:
        return frozenset(t - {"sp", "es", "bl"}) | {"lt", "bt"}
    return t


def limited(t, may_hold):
    """Labels of a text that can only hold the characters for which may_hold(ch) is true."""
    if not t & LABELS:
        return t
    t = set(cut(t)) if t & {"sp", "bl"} else set(t)
    if "lt" in t and not may_hold("<") and not (may_hold("[") and may_hold("(")):
        t.discard("lt")
    for ch, lab in (("`", "bt"), ("\n", "nl"), ("\r", "cr")):
        if lab in t and not may_hold(ch):
            t.discard(lab)
    return frozenset(t)
