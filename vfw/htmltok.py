"""A strict HTML tokenizer, written for these checks.

Follows the data/tag/attribute states of the HTML standard but rejects what the standard calls a
parse error (and anything ambiguous), so that 'tokenizes' means 'every consumer agrees'. It does
not fold case and does not switch content model (the callers place only ordinary elements), but
callers can name raw-text elements.
"""
from __future__ import annotations

import html
import re

WS = " \t\n\f\r"


class TokError(Exception):
    pass


_CHARREF = re.compile(r"&(#[0-9]+|#[xX][0-9a-fA-F]+|[A-Za-z][A-Za-z0-9]*);")
_AMB = re.compile(r"&(?=[A-Za-z0-9#])")


def decode(s, attr=False):
    """Decode character references; a '&' that could be read as one but is not terminated is an error."""
    out, i = [], 0
    while True:
        j = s.find("&", i)
        if j < 0:
            out.append(s[i:])
            return "".join(out)
        out.append(s[i:j])
        m = _CHARREF.match(s, j)
        if not m:
            raise TokError(f"bare '&' at {j}: {s[j:j+12]!r}")
        name = m.group(1)
        if name[0] == "#":
            n = int(name[2:], 16) if name[1] in "xX" else int(name[1:])
            out.append(chr(n))
        else:
            if name + ";" not in html.entities.html5:
                raise TokError(f"unknown reference {m.group(0)!r}")
            out.append(html.entities.html5[name + ";"])
        i = m.end()


import html.entities  # noqa: E402

_NAME = re.compile(r"[A-Za-z][^\s/><\x00\"'=]*")
_ANAME = re.compile(r"[^\s\"'<>/=\x00]+")


def tokens(s, raw=(), strict_text=True):
    """Yield ('text', raw) ('open', name, [(attr, rawvalue)], selfclosed) ('close', name)
    ('decl', text) ('comment', text)."""
    i, n = 0, len(s)
    rawname = None
    while i < n:
        if rawname is not None:
            m = re.compile(r"</" + re.escape(rawname) + r"(?=[\s/>])", re.I).search(s, i)
            if not m:
                raise TokError(f"unterminated <{rawname}>")
            if m.start() > i:
                yield ("text", s[i : m.start()])
            i = m.start()
            rawname = None
        if s[i] != "<":
            j = s.find("<", i)
            j = n if j < 0 else j
            t = s[i:j]
            if strict_text and ">" in t:
                raise TokError(f"bare '>' in text {t!r}")
            yield ("text", t)
            i = j
            continue
        if s.startswith("<!--", i):
            j = s.find("-->", i + 4)
            if j < 0:
                raise TokError("unterminated comment")
            yield ("comment", s[i + 4 : j])
            i = j + 3
            continue
        if s.startswith("<!", i):
            j = s.find(">", i)
            if j < 0:
                raise TokError("unterminated declaration")
            yield ("decl", s[i + 2 : j])
            i = j + 1
            continue
        if s.startswith("</", i):
            m = _NAME.match(s, i + 2)
            if not m or s[m.end() : m.end() + 1] != ">":
                raise TokError(f"bad end tag at {i}: {s[i:i+30]!r}")
            yield ("close", m.group(0))
            i = m.end() + 1
            continue
        m = _NAME.match(s, i + 1)
        if not m:
            raise TokError(f"bad markup at {i}: {s[i:i+30]!r}")
        name = m.group(0)
        i = m.end()
        attrs = []
        while True:
            if i >= n:
                raise TokError(f"unterminated tag <{name}")
            if s[i] == ">":
                yield ("open", name, attrs, False)
                i += 1
                if name.lower() in raw:
                    rawname = name
                break
            if s.startswith("/>", i):
                yield ("open", name, attrs, True)
                i += 2
                break
            if s[i] not in WS:
                raise TokError(f"junk in tag <{name}: {s[i:i+30]!r}")
            while i < n and s[i] in WS:
                if s[i] in "\r\n":
                    raise TokError(f"line break inside tag <{name}>")
                i += 1
            if i < n and s[i] in "/>":
                continue
            m = _ANAME.match(s, i)
            if not m:
                raise TokError(f"bad attribute in <{name}: {s[i:i+30]!r}")
            an = m.group(0)
            i = m.end()
            if not s.startswith('="', i):
                raise TokError(f"attribute {an!r} of <{name}> is not followed by =\"")
            j = s.find('"', i + 2)
            if j < 0:
                raise TokError(f"unterminated attribute value of {an!r}")
            v = s[i + 2 : j]
            attrs.append((an, v))
            i = j + 1
            if i < n and s[i] not in WS and s[i] not in "/>":
                raise TokError(f"no space after attribute {an!r}")


VOIDS = None


def parse(s, raw=(), strict_text=True):
    """-> list of nodes: ['el', name, [(attr, rawvalue)], children, form] | ['text', raw] | ['decl', t] | ['comment', t]
    form: 'selfclosed' or 'pair'. Nesting must be exact."""
    root = []
    stack = [(None, root)]
    for t in tokens(s, raw, strict_text):
        if t[0] == "open":
            el = ["el", t[1], t[2], [], "selfclosed" if t[3] else "pair"]
            stack[-1][1].append(el)
            if not t[3]:
                stack.append((t[1], el[3]))
        elif t[0] == "close":
            name, _ = stack.pop()
            if name != t[1]:
                raise TokError(f"</{t[1]}> closes <{name}>")
        else:
            stack[-1][1].append([t[0], t[1]])
    if len(stack) != 1:
        raise TokError(f"<{stack[-1][0]}> never closed")
    return root
