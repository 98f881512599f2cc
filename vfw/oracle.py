"""Shared oracles."""
from __future__ import annotations

import html.entities
import re

from .core import expect, expect_eq, fail

CHARREF = re.compile(r"&(#[0-9]+|#[xX][0-9a-fA-F]+|[A-Za-z][A-Za-z0-9]*);")
TEXT_SPECIAL = "&<>"
ATTR_SPECIAL = "&<>\"'\r\n"
LAYOUT_WS = " \t\n\r\f"


def escaped_prefix(raw, pos, s, special):
    """Match s, escaped, at raw[pos:]; returns the end position or None and a reason."""
    for i, c in enumerate(s):
        if c in special:
            m = CHARREF.match(raw, pos)
            if not m:
                return None, f"character {c!r} (index {i}) is not a character reference at {raw[pos:pos+12]!r}"
            n = m.group(1)
            if n[0] == "#":
                d = chr(int(n[2:], 16) if n[1] in "xX" else int(n[1:]))
            else:
                d = html.entities.html5.get(n + ";")
            if d != c:
                return None, f"reference {m.group(0)!r} decodes to {d!r}, not {c!r} (index {i})"
            pos = m.end()
        else:
            if raw[pos : pos + 1] != c:
                return None, f"character {c!r} (index {i}) became {raw[pos:pos+8]!r}"
            pos += 1
    return pos, None


def check_escaped(raw, s, special, msg, **kw):
    end, why = escaped_prefix(raw, 0, s, special)
    if end is None:
        fail(f"{msg}: {why}", raw=raw, original=s, **kw)
    if end != len(raw):
        fail(f"{msg}: extra output {raw[end:end+40]!r}", raw=raw, original=s, **kw)


def is_escaped(raw, s, special):
    end, _ = escaped_prefix(raw, 0, s, special)
    return end == len(raw)


def check_segments(raw, segs, special, msg, **kw):
    """segs: [(verbatim?, text)] joined by single spaces."""
    pos = 0
    for i, (verb, s) in enumerate(segs):
        if i:
            if raw[pos : pos + 1] != " ":
                fail(f"{msg}: values not joined by one space before value {i}", raw=raw, segments=segs, **kw)
            pos += 1
        if verb:
            if not raw.startswith(s, pos):
                fail(f"{msg}: HTML() part {i} not verbatim", raw=raw, segments=segs, **kw)
            pos += len(s)
        else:
            end, why = escaped_prefix(raw, pos, s, special)
            if end is None:
                fail(f"{msg}: value {i}: {why}", raw=raw, segments=segs, **kw)
            pos = end
    if pos != len(raw):
        fail(f"{msg}: extra output {raw[pos:pos+40]!r}", raw=raw, segments=segs, **kw)


MARK = "\u2780MARK\u2781"


def between(out, ref, verify, msg, **kw):
    """`ref` is the rendering with MARK in the place of interest, `out` the rendering under test.
    verify(mid) -> None or a reason. Layout white space next to the place may differ."""
    k = ref.count(MARK)
    if k != 1:
        fail(f"{msg}: a plain marker string appears {k} times in the output", ref=ref, **kw)
    pre, suf = ref.split(MARK)
    if len(out) >= len(pre) + len(suf) and out.startswith(pre) and out.endswith(suf):
        mid = out[len(pre) : len(out) - len(suf)]
        why = verify(mid)
        if why is None:
            return
    else:
        mid, why = None, "surroundings of the text changed"
    p, s = pre.rstrip(LAYOUT_WS), suf.lstrip(LAYOUT_WS)
    if (p != pre or s != suf) and len(out) >= len(p) + len(s) and out.startswith(p) and out.endswith(s):
        m = out[len(p) : len(out) - len(s)]
        a = len(m) - len(m.lstrip(LAYOUT_WS)) if p != pre else 0
        b = len(m) - len(m.rstrip(LAYOUT_WS)) if s != suf else 0
        for i in range(min(a, 200) + 1):
            for j in range(min(b, 200) + 1):
                if i + j <= len(m) and verify(m[i : len(m) - j]) is None:
                    return
    fail(f"{msg}: {why}", output=out, marker_output=ref, found=mid, **kw)


def escaped_verifier(s, special=TEXT_SPECIAL):
    def v(mid):
        end, why = escaped_prefix(mid, 0, s, special)
        if end is None:
            return why
        if end != len(mid):
            return f"extra output {mid[end:end+40]!r}"
        return None

    return v


def verbatim_verifier(s):
    return lambda mid: None if mid == s else f"not verbatim: {mid[:200]!r}"


# ----------------------------------------------------------------------- dependency model
def version_key(v):
    """Own PEP 440 ordering key for the subset of versions generated here."""
    m = re.match(
        r"\s*v?(?:(\d+)!)?(\d+(?:\.\d+)*)"
        r"(?:[-_.]?(a|b|c|rc|alpha|beta|pre|preview)[-_.]?(\d*))?"
        r"(?:-(\d+)|[-_.]?(?:post|rev|r)[-_.]?(\d*))?"
        r"(?:[-_.]?(dev)[-_.]?(\d*))?"
        r"(?:\+([a-z0-9]+(?:[-_.][a-z0-9]+)*))?\s*\Z",
        v, re.I)
    if not m:
        raise ValueError(v)
    epoch = int(m.group(1) or 0)
    rel = [int(x) for x in m.group(2).split(".")]
    while rel and rel[-1] == 0:
        rel.pop()
    pre_l = m.group(3)
    post = m.group(5) if m.group(5) is not None else (m.group(6) if re.search(r"(post|rev|r)\d*", v.split("+")[0][len(m.group(2)):], re.I) and m.group(6) is not None else None)
    dev = m.group(8) if m.group(7) else None
    if pre_l:
        pl = {"a": "a", "alpha": "a", "b": "b", "beta": "b", "c": "rc", "rc": "rc", "pre": "rc", "preview": "rc"}[pre_l.lower()]
        pre = (0, pl, int(m.group(4) or 0))
    elif post is None and dev is not None:
        pre = (-1,)
    else:
        pre = (1,)
    postk = (-1,) if post is None else (0, int(post or 0))
    devk = (1,) if dev is None else (0, int(dev or 0))
    loc = m.group(9)
    lock = (-1,) if loc is None else (0, tuple((1, int(p), "") if p.isdigit() else (0, 0, p.lower()) for p in re.split(r"[-_.]", loc)))
    return (epoch, tuple(rel), pre, postk, devk, lock)


def resolve(deps, key=lambda d: d):
    """Reference resolution over spec dicts: one per name, highest version, earliest on ties."""
    order, best = [], {}
    for d in deps:
        s = key(d)
        if s["name"] not in best:
            order.append(s["name"])
            best[s["name"]] = d
        elif version_key(s["version"]) > version_key(key(best[s["name"]])["version"]):
            best[s["name"]] = d
    return [best[n] for n in order]


def tree_deps(nodes):
    """Dependency specs in document order (spec-level, metadata in tags and lists)."""
    out = []
    for n in nodes:
        if n[0] == "d":
            out.append(n[1])
        elif n[0] == "g":
            out.extend(tree_deps(n[4]))
        elif n[0] in "LUT":
            out.extend(tree_deps(n[1]))
    return out
