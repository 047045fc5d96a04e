"""The shipped message catalogues, read as data (.mo and .po)."""

from __future__ import annotations

import ast
import glob
import os
import re
import struct


class CatalogError(Exception):
    pass


def read_mo(path):
    """{(context, msgid, plural or None): [translations]} of a .mo file."""
    with open(path, "rb") as f:
        b = f.read()
    magic = struct.unpack("<I", b[:4])[0]
    end = "<" if magic == 0x950412DE else ">" if magic == 0xDE120495 else None
    if end is None:
        raise CatalogError(f"{path} is not a .mo file")
    _, n, o, t = struct.unpack(end + "4I", b[4:20])
    raw = []
    charset = "ascii"
    for i in range(n):
        ln, off = struct.unpack(end + "2I", b[o + 8 * i:o + 8 * i + 8])
        tl, toff = struct.unpack(end + "2I", b[t + 8 * i:t + 8 * i + 8])
        mid, msg = b[off:off + ln], b[toff:toff + tl]
        if not mid:
            m = re.search(rb"charset=([\w-]+)", msg)
            if m:
                charset = m.group(1).decode("ascii")
        raw.append((mid, msg))
    out = {}
    for mid, msg in raw:
        ctx = None
        if b"\x04" in mid:
            c, _, mid = mid.partition(b"\x04")
            ctx = c.decode(charset)
        ids = [x.decode(charset) for x in mid.split(b"\0")]
        out[(ctx, ids[0], ids[1] if len(ids) > 1 else None)] = [x.decode(charset) for x in msg.split(b"\0")]
    return out


def read_po(path):
    """[entry] of a .po file: dict(ctx, id, plural, strs{n: text}, fuzzy, obsolete, line)."""
    out = []
    cur = None
    field = None

    def flush():
        nonlocal cur, field
        if cur is not None and cur["id"] is not None:
            out.append(cur)
        cur = None
        field = None

    fuzzy = False
    with open(path, encoding="utf-8") as f:
        for no, line in enumerate(f, 1):
            line = line.rstrip("\n")
            body = line
            obsolete = False
            if line.startswith("#~"):
                body = line[2:].lstrip()
                obsolete = True
            elif line.startswith("#"):
                if cur is not None and cur["strs"]:
                    flush()
                if line.startswith("#,") and "fuzzy" in line:
                    fuzzy = True
                continue
            if not body.strip():
                flush()
                fuzzy = False
                continue
            m = re.match(r'(msgctxt|msgid_plural|msgid|msgstr)(?:\[(\d+)\])?\s*(".*")\s*$', body)
            if m:
                kw, n, text = m.group(1), m.group(2), ast.literal_eval(m.group(3))
                if kw in ("msgctxt", "msgid") and (cur is None or cur["strs"]):
                    flush()
                    cur = dict(ctx=None, id=None, plural=None, strs={}, fuzzy=fuzzy, obsolete=obsolete, line=no)
                    fuzzy = False
                if cur is None:
                    raise CatalogError(f"{path}:{no}: {kw} outside an entry")
                if kw == "msgctxt":
                    cur["ctx"] = text
                    field = ("ctx", None)
                elif kw == "msgid":
                    cur["id"] = text
                    field = ("id", None)
                elif kw == "msgid_plural":
                    cur["plural"] = text
                    field = ("plural", None)
                else:
                    cur["strs"][int(n or 0)] = text
                    field = ("strs", int(n or 0))
                continue
            m = re.match(r'(".*")\s*$', body)
            if m and field:
                text = ast.literal_eval(m.group(1))
                if field[0] == "strs":
                    cur["strs"][field[1]] += text
                else:
                    cur[field[0]] += text
                continue
            raise CatalogError(f"{path}:{no}: not understood: {body[:60]}")
    flush()
    return out


def locales(root, package="httplint"):
    """{locale: (po path, mo path)}"""
    out = {}
    base = os.path.join(root, package, "translations")
    for d in sorted(glob.glob(os.path.join(base, "*", "LC_MESSAGES"))):
        loc = os.path.basename(os.path.dirname(d))
        po, mo = os.path.join(d, "messages.po"), os.path.join(d, "messages.mo")
        out[loc] = (po if os.path.exists(po) else None, mo if os.path.exists(mo) else None)
    return out


def merged(root, package="httplint"):
    """{msgid: {translations in any locale}} as gettext and ngettext may answer."""
    out = {}
    for loc, (po, mo) in locales(root, package).items():
        if mo is None:
            continue
        for (ctx, mid, plural), strs in read_mo(mo).items():
            if ctx is not None:
                continue
            out.setdefault(mid, set()).update(strs)
            if plural is not None:
                out.setdefault(plural, set()).update(strs)
    return out


_FMT = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flags>[#0\- +]*)(?P<w>\*|\d+)?(?:\.(?:\*|\d+))?[hlL]?(?P<c>.?)", re.S)
_CONV = set("diouxXeEfFgGcrsa%")


def directives(text):
    """[(key or None, conversion, offset)] of a %-format; raises CatalogError when it isn't one."""
    out = []
    i = 0
    while True:
        i = text.find("%", i)
        if i < 0:
            return out
        m = _FMT.match(text, i)
        c = m.group("c")
        if c not in _CONV or not c:
            raise CatalogError(f"not a conversion: {text[i:i + 12]!r}")
        if c != "%":
            out.append((m.group("key"), c, i))
        elif m.group("key") is not None:
            raise CatalogError(f"not a conversion: {text[i:i + 12]!r}")
        i = m.end()


def percent_formatted(text):
    """Does the text have named conversions at all (a message which is not formatted may have a bare %)?"""
    try:
        return any(k is not None for k, _, _ in directives(text))
    except CatalogError:
        return "%(" in text
