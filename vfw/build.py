"""Specs -> live htmltools objects, through the public API; and spec-level normal form."""
from __future__ import annotations

import htmltools
from htmltools import HTML, HTMLDependency, MetadataNode, Tag, TagList

from . import nest
from .gen import norm_name


class Str(str):
    """A plain string, of a subclass of str that has its own str(), as the members of a str Enum have."""

    def __str__(self):
        return f"Str.M{len(self)}"

    def __format__(self, spec):
        return format(str(self), spec)


def as_str(s):
    """The string, or (fixed by its content) an equal instance of a subclass."""
    return Str(s) if isinstance(s, str) and sub(s) else s


class Raw(HTML):
    """Marked-up text, of a subclass of HTML."""


def sub(s):
    """Whether a string is built as an instance of a subclass: fixed by its content."""
    return len(s) > 1 and (ord(s[0]) + ord(s[-1]) + len(s)) % 5 == 1


class Repr:
    """Self-rendering object."""

    def __init__(self, s):
        self.s = s

    def _repr_html_(self):
        nest.work()
        return self.s


class Meta(MetadataNode):
    """Metadata node compared by value."""

    def __init__(self, key=0):
        self.key = key

    def __eq__(self, other):
        return type(other) is Meta and other.key == self.key

    __hash__ = None


class Expander:
    """Tagifiable: tagify() returns a fresh, fully tagified expansion."""

    def __init__(self, kind, nodes):
        self.kind, self.nodes = kind, nodes

    def tagify(self):
        nest.work()
        return expansion(self.kind, self.nodes)


class ReprExpander(Expander):
    """Tagifiable and self-rendering."""

    def _repr_html_(self):
        nest.work()
        return "<!--self-rendered-->"


def expansion(kind, nodes):
    if kind == "one":
        b = build(nodes[0])
        # by contract the result is fully tagified
        return b.tagify() if hasattr(b, "tagify") and not isinstance(b, TagList) else b
    return TagList(*[build(n) for n in nodes]).tagify()


def attr_value(v):
    k, x = v
    if k == "h":
        return Raw(x) if sub(x) else HTML(x)
    return as_str(x) if k == "s" else x


def dep(spec):
    kw = {k: v for k, v in spec.items() if k not in ("name", "version", "head")}
    kw = _copy(kw)
    if spec.get("head") is not None:
        h = spec["head"]
        kw["head"] = as_str(h) if isinstance(h, str) else TagList(*[build(n) for n in h])
    return HTMLDependency(spec["name"], spec["version"], **kw)


def _copy(x):
    if isinstance(x, dict):
        return {k: _copy(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_copy(v) for v in x]
    return x


def build(n):
    k = n[0]
    if k == "t":
        return Str(n[1]) if sub(n[1]) else n[1]
    if k == "h":
        return Raw(n[1]) if sub(n[1]) else HTML(n[1])
    if k == "r":
        return Repr(n[1])
    if k == "n":
        return n[1]
    if k == "N":
        return None
    if k == "m":
        return Meta(n[1]) if len(n) > 1 else MetadataNode()
    if k == "d":
        return dep(n[1])
    if k == "g":
        return tag(n)
    if k == "L":
        return [build(c) for c in n[1]]
    if k == "U":
        return tuple(build(c) for c in n[1])
    if k == "T":
        return TagList(*[build(c) for c in n[1]])
    if k == "x":
        return Expander(n[1], n[2])
    if k == "X":
        return ReprExpander(n[1], n[2])
    if k == "hc":
        return htmltools.head_content(*[build(c) for c in n[1]])
    raise ValueError(n)


def tag(n):
    _, name, ws, attrs, kids = n
    return Tag(name, *[{a: attr_value(v)} for a, v in attrs], *[build(c) for c in kids], _add_ws=ws)


def flat(nodes):
    """Spec-level normalisation of a child list: the list of stored nodes."""
    out = []
    for n in nodes:
        k = n[0]
        if k in "LUT":
            out.extend(flat(n[1]))
        elif k == "N":
            pass
        elif k == "n":
            out.append(["t", str(n[1])])
        elif k == "g":
            out.append(["g", n[1], n[2], n[3], flat(n[4])])
        else:
            out.append(n)
    return out


ESC = {"&": "&amp;", "<": "&lt;", ">": "&gt;"}
ESC_ATTR = {**ESC, '"': "&quot;", "'": "&apos;", "\r": "&#13;", "\n": "&#10;"}


def attr_text(v):
    """Decoded value of one attribute value spec; None when dropped."""
    k, x = v
    if k in "sh":
        return x
    if x is None or x is False:
        return None
    if x is True:
        return ""
    return str(x)


def stored_attrs(attrs):
    """Ordered [(name, [(is_html, text), ...])] after normalisation and merging in one call."""
    out = {}
    for a, v in attrs:
        t = attr_text(v)
        if t is None:
            continue
        out.setdefault(norm_name(a), []).append((v[0] == "h", t))
    return list(out.items())
