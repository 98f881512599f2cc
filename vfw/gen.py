"""Hypothesis strategies producing JSON-able specs. Every random choice is Hypothesis's."""
from __future__ import annotations

import json
import os
import re

from hypothesis import strategies as st

from .mine import dictionary

CAT = json.load(open(os.path.join(os.path.dirname(__file__), "..", "data", "catalogue.json")))
VOID = ["area", "base", "br", "col", "command", "embed", "hr", "img", "input", "keygen", "link",
        "meta", "param", "source", "track", "wbr"]
RAW = ["script", "style"]
HTML_NAMES = sorted(CAT["tags"])
SVG_NAMES = sorted(CAT["svg"])
INLINE = set(CAT["inline"])

DS, DI, NS, NI = dictionary()


def _own_constants():
    """Hypothesis draws 5% of all strings and numbers from the constants of the modules it takes for
    local: the harness itself (its markers and placeholders!) and the code under test. What is drawn
    must not depend on how either is written; the dictionary above does this job by intent."""
    from hypothesis.internal.conjecture import providers

    if hasattr(providers, "_get_local_constants"):
        from hypothesis.internal.constants_ast import Constants

        c = Constants(integers=set(DI))
        providers._get_local_constants = lambda: c


_own_constants()

META = "&<>\"'\r\n;#= /!-"
HOSTILE = [
    "&", "<", ">", '"', "'", "\r", "\n", "\r\n", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#10;", "&#13;",
    "&#x26;", "&amp", "&lt", "&amp;amp;", "&amp;lt;", "&nbsp;", "&notit;", "&#0;", "&;", "&#", "</", "<!--", "-->", "--!>", "<!DOCTYPE html>",
    "<![CDATA[", "]]>", "<?xml ?>", "</script>", "</SCRIPT>", "</ScRiPt >", "</style>", "<script>", "<style>", "</div>", "<div>", "<br/>",
    "/>", '">', "'>", '" x="', "' onload='", "=", "javascript:", "\\", "\\n", "\\u003c", "`", "${x}", "{}", "{0}", "%s", "%(a)s", "%41", "%", "\\1", "\\g<0>",
    "\x00", "\x01", "\x07", "\x08", "\t", "\x0b", "\x0c", "\x1b", "\x1c", "\x1e", "\x7f", "\x85", "\xa0", "\xad", "\u2003", "\u2028", "\u2029", "\u200b", "\u202e", "\ufeff", "\ufffd", "\ufffe",
    "é", "e\u0301", "ß", "İ", "ı", "ſ", "K", "ﬁ", "＜", "＞", "＆", "≮", "中", "😀", "👨‍👩‍👧", "\U0010ffff", "\ud7ff", "\ue000",
    " ", "  ", "a", "b", "0", "1", "-", "_", ":", ";", ",", "/", ".", "#", "?", "None", "True", "nan", "style", "class", "html", "head", "body",
]
PLAIN = ["a", "b", "hello", "world", "x y", "text", "foo", "1", "é", "中", "end."]
NOVEL = [s for s in NS]


def sizes(lo, hi, small=4):
    """Mostly small numbers, sometimes large ones, with the sizes named in the code favoured."""
    opts = [st.integers(lo, min(hi, lo + small))] * 3 + [st.integers(lo, hi)]
    near = sorted({n + d for n in DI for d in (-1, 0, 1) if lo <= n + d <= hi})
    nov = sorted({n + d for n in NI for d in (-1, 0, 1, 2) if lo <= n + d <= hi})
    if near:
        opts.append(st.sampled_from(near))
    if nov:
        opts += [st.sampled_from(nov)] * 3
    return st.one_of(*opts)


@st.composite
def weighted(draw, *pairs):
    """pairs: (weight, strategy)"""
    tot = sum(w for w, _ in pairs)
    k = draw(st.integers(0, tot - 1))
    for w, s in pairs:
        if k < w:
            return draw(s)
        k -= w


def novel_or(s):
    return weighted((5, s), (1, st.sampled_from(NOVEL))) if NOVEL else s


_pieces = [
    st.sampled_from(HOSTILE),
    st.sampled_from(HOSTILE),
    st.text(st.sampled_from(META), min_size=1, max_size=6),
    st.sampled_from(PLAIN),
    st.sampled_from(DS) if DS else st.sampled_from(PLAIN),
    st.text(max_size=4),
]
if NOVEL:
    _pieces += [st.sampled_from(NOVEL)] * 2
PIECE = st.one_of(*_pieces)


@st.composite
def _joined(draw):
    return "".join(draw(st.lists(PIECE, max_size=5)))


@st.composite
def _long(draw):
    unit = draw(PIECE)
    n = draw(sizes(2, 200, 20))
    pre, post = draw(st.sampled_from(["", "x", "<", "é"])), draw(st.sampled_from(["", "y", "&", "'\n"]))
    if len(unit) > 8:
        unit = unit[:8]
    return pre + unit * n + post


@st.composite
def _exact_len(draw):
    n = draw(sizes(0, 300, 40))
    c = draw(st.sampled_from("ab<&é '"))
    tail = draw(st.sampled_from(["", "<", "&", '"', "\n", ">"]))
    return c * max(0, n - len(tail)) + tail


# Any str over Unicode scalar values; hostile content frequent.
TEXT = weighted((3, st.sampled_from(PLAIN)), (8, _joined()), (3, st.text(max_size=12)), (1, _long()), (1, _exact_len()),
                (1, st.sampled_from(["", " ", "\n", "  \n ", "\t"])))
# always with at least one markup character
HOT = st.lists(st.one_of(PIECE, st.sampled_from(["&", "<", ">", '"', "'", "\r", "\n", "&amp;", "<b>", "</b>"])), min_size=1, max_size=5).map("".join)
SHORT = weighted((4, st.sampled_from(PLAIN)), (4, PIECE))
NUMBER = st.one_of(
    st.integers(-3, 12), st.integers(), st.floats(allow_nan=True, allow_infinity=True), st.booleans(),
    st.sampled_from([0, 0.0, -0.0, 1.0, 1e22, 1e-7, 10**30, 0.1, 255, 3.14]),
)

_TAGNAME = re.compile(r"[A-Za-z][A-Za-z0-9:._-]*\Z")
_ATTRNAME = re.compile(r"[^\s\"'<>/=\x00-\x1f\x7f-\x9f\ufdd0-\ufdef\ufffe\uffff]+\Z")


def ok_custom(n):
    return bool(_TAGNAME.match(n)) and n.lower() not in VOID and n.lower() not in RAW


CUSTOM = st.one_of(
    st.sampled_from(["my-elem", "x-a", "custom.tag", "ns:el", "a1", "h7", "bru", "image", "scripts", "styles", "brx", "i-mg", "metadata", "inputs",
                     "X", "Foo", "xBr", "linearGradient", "foreignObject", "font-face", "consolidate_attrs".replace("_", "-"), "tag", "lin", "hrr"]),
    st.from_regex(r"[a-z][a-zA-Z0-9:.\-]{0,8}", fullmatch=True).filter(ok_custom),
)
_nov_tags = [s for s in NS if ok_custom(s)]
if _nov_tags:
    CUSTOM = st.one_of(CUSTOM, st.sampled_from(_nov_tags))
COMMON = st.sampled_from(["div", "span", "p", "a", "b", "i", "ul", "li", "em", "section", "pre", "code", "table", "td", "h1", "title", "head", "body", "html", "textarea", "button", "select", "option"])
ORDINARY = [n for n in HTML_NAMES + SVG_NAMES if n not in RAW and n not in VOID]
TAGNAME = weighted((6, COMMON), (3, st.sampled_from(sorted(set(ORDINARY)))), (3, st.sampled_from(VOID)), (2, CUSTOM))

ATTR_RAW_FIXED = ["id", "class_", "class", "style", "href", "src", "data_x", "data-x", "aria-label", "for_", "x__", "a_b", "a-b", "a_b_", "on_click", "@click", ":bind", "v-on:x.y",
                  "xlink:href", "viewBox", "é", "_x", "X", "title", "charset", "name", "value", "data-html-dependency", "type", "x.y", "[z]", "(q)", "#r", "alt", "checked", "async_", "is"]
# parameters of the constructors that attributes are passed to by keyword
RESERVED = {"self", "cls", "_name", "_add_ws", "allowedProps", "collapse_"}
_nov_attr = [s for s in NS if _ATTRNAME.match(s) and s.strip("_") and s not in RESERVED]
_attr_opts = [st.sampled_from(ATTR_RAW_FIXED)] * 5 + [st.text(st.characters(min_codepoint=33, max_codepoint=126, exclude_characters="\"'<>/="), min_size=1, max_size=4).filter(lambda s: norm_name(s) != "" and s not in RESERVED), st.from_regex(r"[a-zA-Z_:@][a-zA-Z0-9_:.\-]{0,6}", fullmatch=True).filter(lambda s: norm_name(s) != "" and s not in RESERVED)]
if _nov_attr:
    _attr_opts.append(st.sampled_from(_nov_attr))
ATTRNAME = st.one_of(*_attr_opts)


def norm_name(x):
    if x.endswith("_"):
        x = x[:-1]
    return x.replace("_", "-")


# attribute value specs: ["s", str], ["h", str] (HTML), ["v", number|bool|None]
ATTRVAL = weighted((6, TEXT.map(lambda s: ["s", s])), (2, NUMBER.map(lambda v: ["v", v])), (1, st.sampled_from([["v", True], ["v", False], ["v", None]])))
ATTRVAL_H = weighted((3, ATTRVAL), (1, TEXT.map(lambda s: ["h", s.replace('"', "&quot;")])))


def attrs(val=ATTRVAL, mx=4):
    return weighted((3, st.just([])), (3, st.lists(st.tuples(ATTRNAME, val).map(list), max_size=mx)),)


MARKUP = weighted((3, st.sampled_from(["<b>x</b>", "<a&b>", "&amp;", "&copy;", "<!-- c -->", "<i>\n  y\n</i>", "<p>1</p>\n<p>2</p>", "", "\n", " <u/> ", "<div></div>", "plain"])), (3, TEXT))

VERSION = st.one_of(
    st.sampled_from(["1.0", "1", "1.0.0", "1.9", "1.10", "1.10.0", "2", "0.0", "0.1", "1.0a1", "1.0b2", "1.0rc1", "1.0.post1", "1.0.dev1", "1!0.1", "1.0+abc", "1.2.3.4.5",
                     "10", "9", "2021.01.02", "1.02", "v1.1", "1.0-1", "1.0.0-beta", "0.9.10", "0.10.9", "3.5.1"]),
    st.lists(st.integers(0, 12), min_size=1, max_size=4).map(lambda l: ".".join(map(str, l))),
)
DEPNAME_ODD = st.one_of(
    st.sampled_from(["jQuery", "D3", "bootstrap-icons", "shiny_ui", "ünï", "9", "UPPER", "a+b", "@scope.pkg", "n" * 40, "None", "true", "meta", "head", "_x", "x_", "-", "Ab.Cd-1", "jquery-3.1", "lib[1]", "x;y", "a b"]),
    st.from_regex(r"[A-Za-z][A-Za-z0-9._\-]{0,12}", fullmatch=True))
DEPNAME = weighted((4, st.sampled_from(["a", "b", "c", "jquery", "bootstrap", "A", "dep-1", "x.y", "lib", "a-b"])), (1, DEPNAME_ODD))


def chain(leaf, wrap, mx=60):
    """leaf wrapped n times."""

    @st.composite
    def s(draw):
        x = draw(leaf)
        for _ in range(draw(sizes(1, mx, 8))):
            x = draw(wrap(x))
        return x

    return s()


# ---------------------------------------------------------------------------------- trees
# node specs:
#  ["t", str] text   ["h", str] HTML()   ["r", str] object with _repr_html_
#  ["n", number]     ["N"] None          ["m", key] MetadataNode        ["d", depspec] HTMLDependency
#  ["g", name, ws, attrs, children]      ["L"|"U"|"T", nodes] nested list / tuple / TagList
#  ["x", kind, nodes] tagifiable object (kind: "list" -> returns TagList, "one" -> single node)

def tree_nodes(leaf, name=TAGNAME, ws=st.booleans(), attr=None, nest=True, max_leaves=12, fan=5, big=True):
    """Strategy of lists of nodes (children list)."""
    attr = attr if attr is not None else attrs()

    @st.composite
    def node(draw, depth, budget):
        k = draw(st.integers(0, 9))
        if depth <= 0 or budget[0] <= 0 or k < 3:
            budget[0] -= 1
            return draw(leaf)
        if k < 9 or not nest:
            return ["g", draw(name), draw(ws), draw(attr), draw(kids(depth - 1, budget))]
        return [draw(st.sampled_from(["L", "U", "T"])), draw(kids(depth - 1, budget))]

    @st.composite
    def kids(draw, depth, budget):
        n = draw(st.integers(0, fan))
        out = []
        for _ in range(n):
            if budget[0] <= 0:
                break
            out.append(draw(node(depth, budget)))
        return out

    @st.composite
    def top(draw):
        budget = [draw(st.integers(2, max_leaves))]
        out = draw(kids(draw(st.integers(2, 5)), budget))
        if not out or draw(st.integers(0, 3)) == 0:
            out = [["g", draw(name), draw(ws), draw(attr), out]]
        return out

    opts = [(12, top())]
    if big:
        @st.composite
        def wide(draw):
            n = draw(sizes(6, 40, 6))
            base = draw(st.lists(node(1, [6]), min_size=1, max_size=4))
            tail = draw(st.lists(node(1, [4]), max_size=2))
            out = [base[i % len(base)] for i in range(max(0, n - len(tail)))] + tail
            if draw(st.booleans()):
                out = [["g", draw(name), draw(ws), [], out]]
            return out

        @st.composite
        def deep(draw):
            x = draw(kids(1, [4]))
            n = draw(sizes(5, 40, 8))
            names = draw(st.lists(st.tuples(name, ws), min_size=1, max_size=3))
            for i in range(n):
                nm, w = names[i % len(names)]
                x = [["g", nm, w, [], x]]
                if draw(st.integers(0, 5)) == 0:
                    x = draw(kids(0, [2])) + x + draw(kids(0, [2]))
            return x

        @st.composite
        def many_attrs(draw):
            n = draw(sizes(4, 30, 8))
            v = draw(ATTRVAL)
            return [["g", draw(name), draw(ws), [[f"k{i}", v] for i in range(n)], draw(kids(1, [3]))]]

        opts += [(1, wide()), (1, deep()), (1, many_attrs())]
    return weighted(*opts)


LEAF_TEXT = weighted((6, TEXT.map(lambda s: ["t", s])), (1, NUMBER.map(lambda n: ["n", n])), (1, st.just(["N"])))
INDENT = st.one_of(st.just(0), st.integers(0, 5), sizes(0, 30))
EOL_WS = st.sampled_from(["\n", "\n", "\r\n", "", " ", "\t", "\n\n", "\r"])
EOL_ANY = st.one_of(EOL_WS, st.sampled_from(["|", "\u2028", "<br>", "EOL", "&", "\\n"]))
