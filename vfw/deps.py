"""Dependency specs (JSON-able keyword arguments of HTMLDependency) and structural snapshots."""
from __future__ import annotations

from hypothesis import strategies as st

from htmltools import HTML, HTMLDependency, HTMLDocument, MetadataNode, Tag, TagList

from . import gen
from .build import Expander, Meta, Repr

FILES_JS = ["a.js", "b.js", "sub/c.js", "we ird.js"]
FILES_CSS = ["a.css", "sub/b.css", "ü.css"]


def dep_spec(text=None, name=gen.DEPNAME, version=gen.VERSION, files=True, head=True, url=True, local="@SRC", single=True):
    """Specs of dependencies. `local` is a stand-in for a source directory created per case."""
    text = text or gen.SHORT
    extra_s = st.dictionaries(st.sampled_from(["async", "defer", "type", "crossorigin", "integrity", "data-x"]), text, max_size=2)
    extra_l = st.dictionaries(st.sampled_from(["rel", "media", "title", "type", "data-y"]), text, max_size=2)
    extra_m = st.dictionaries(st.sampled_from(["charset", "http-equiv", "data-z"]), text, max_size=1)
    script = st.tuples(st.sampled_from(FILES_JS), extra_s).map(lambda t: {"src": t[0], **t[1]})
    sheet = st.tuples(st.sampled_from(FILES_CSS), extra_l).map(lambda t: {"href": t[0], **t[1]})
    meta = st.tuples(text, text, extra_m).map(lambda t: {"name": t[0], "content": t[1], **t[2]})

    def many(s):
        return st.one_of(st.none(), s, st.lists(s, max_size=3)) if single else st.lists(s, max_size=3)

    node = st.one_of(text.map(lambda s: ["t", s]), st.sampled_from([["g", "title", False, [], [["t", "T<"]]], ["h", "<meta name=q>"], ["g", "script", True, [["src", ["s", "x.js"]]], []],
                     ["g", "link", True, [["href", ["s", "h"]]], []], ["g", "style", True, [], [["t", "a>b"]]], ["g", "div", True, [], [["g", "b", False, [], [["t", "x"]]], ["t", "y"]]],
                     ["g", "ul", True, [["class", ["s", "a b"]]], [["g", "li", True, [], [["t", str(i)], ["g", "i", False, [], []]]] for i in range(5)]], ["g", "noscript", False, [["id", ["s", "n"]]], [["t", "a"], ["g", "p", True, [], [["g", "b", True, [], [["t", "b"]]]]], ["h", "<i>"], ["t", "c"]]]]),
                     gen.tree_nodes(text.map(lambda s: ["t", s]), attr=gen.attrs(text.map(lambda s: ["s", s]), mx=2), max_leaves=5).map(lambda l: [n for n in l if n[0] == "g"][:1] or [["t", "no"]]).map(lambda l: l[0]))
    src = [st.none()]
    if url:
        src.append(st.sampled_from([{"href": "http://x.org/lib"}, {"href": "/lib/"}, {"href": "."}]))
    if local:
        src.append(st.sampled_from([{"subdir": local}, {"subdir": local, "package": None}]))

    @st.composite
    def s(draw):
        d = {"name": draw(name), "version": draw(version)}
        if draw(st.integers(0, 3)) == 0:
            return d
        x = draw(st.one_of(*src))
        if x is not None:
            d["source"] = dict(x)
        if files:
            for k, g in (("script", script), ("stylesheet", sheet), ("meta", meta)):
                v = draw(many(g))
                if v is not None:
                    d[k] = v
            if draw(st.integers(0, 4)) == 0:
                d["all_files"] = True
        if head:
            k = draw(st.integers(0, 5))
            if k == 0:
                d["head"] = draw(text)
            elif k <= 2:
                d["head"] = draw(st.lists(node, max_size=3))
        return d

    return s()


def subst(x, a, b):
    """Replaces the string a by b wherever it is a whole value."""
    if isinstance(x, dict):
        return {k: subst(v, a, b) for k, v in x.items()}
    if isinstance(x, list):
        return [subst(v, a, b) for v in x]
    return b if isinstance(x, str) and x == a else x


def make_source(root):
    import os

    for f in FILES_JS + FILES_CSS + ["extra.txt"]:
        p = os.path.join(root, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as h:
            h.write("// " + f)


# ---------------------------------------------------------------------------- snapshots
def plain(x):
    """JSON-like value with types kept apart."""
    if isinstance(x, dict):
        return ("dict", [(k, plain(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [plain(v) for v in x])
    if isinstance(x, HTML):
        return ("HTML", x.as_string())
    return (type(x).__name__, repr(x))


def snap(x):
    """Structure of everything reachable from x (public state only)."""
    if isinstance(x, HTML):
        return ("HTML", x.as_string())
    if isinstance(x, str):
        return ("str", str(x))
    if isinstance(x, Tag):
        return ("Tag", type(x).__name__, x.name, x.add_ws, [(k, type(v).__name__, str(v)) for k, v in x.attrs.items()], snap(x.children))
    if isinstance(x, TagList):
        return ("TagList", [snap(c) for c in x])
    if isinstance(x, HTMLDependency):
        return ("dep", type(x).__name__, x.name, str(x.version), plain(x.source), plain(x.script), plain(x.stylesheet), plain(x.meta), x.all_files, None if x.head is None else snap(x.head))
    if isinstance(x, Meta):
        return ("Meta", x.key)
    if isinstance(x, MetadataNode):
        return ("MetadataNode", type(x).__name__, repr(sorted(vars(x).items())))
    if isinstance(x, Repr):
        return ("Repr", x.s)
    if isinstance(x, Cached):
        return ("Cached", snap(x.result))
    if isinstance(x, Expander):
        return ("Expander", x.kind, repr(x.nodes))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(c) for c in x])
    if isinstance(x, dict):
        return plain(x)
    return ("other", type(x).__name__, repr(x))


class Cached:
    """Tagifiable that hands out the same (fully tagified) object every time."""

    def __init__(self, result):
        self.result = result

    def tagify(self):
        return self.result


def objects(x, out=None):
    """{id: (kind, object)} of all tags, child lists, attribute maps and metadata nodes reachable from x."""
    out = {} if out is None else out
    if isinstance(x, Tag):
        out[id(x)] = ("tag", x)
        out[id(x.attrs)] = ("attribute map", x.attrs)
        objects(x.children, out)
    elif isinstance(x, TagList):
        out[id(x)] = ("child list", x)
        if isinstance(getattr(x, "data", None), list):
            out[id(x.data)] = ("child list storage", x.data)
        for c in x:
            objects(c, out)
    elif isinstance(x, MetadataNode):
        out[id(x)] = ("metadata node", x)
        if isinstance(x, HTMLDependency):
            for f in ("script", "stylesheet", "meta"):
                l = getattr(x, f)
                out[id(l)] = ("dependency " + f, l)
                for d in l:
                    out[id(d)] = ("dependency " + f + " item", d)
            if x.source is not None:
                out[id(x.source)] = ("dependency source", x.source)
            if x.head is not None:
                objects(x.head, out)
    return out
