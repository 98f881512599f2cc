"""Placements: every way and every position in which one leaf can get into a tree.

A placement is a JSON-able description; place(p, leaf) builds the tree around a live leaf object.
"""
from __future__ import annotations

import sys

from hypothesis import strategies as st

from htmltools import HTMLDocument, Tag, TagList

from . import gen, nest, sizes
from .build import build, flat, tag


class LeafExpander:
    def __init__(self, fn):
        self.fn = fn

    def tagify(self):
        nest.work()
        return self.fn()


class ReprLeafExpander(LeafExpander):
    def _repr_html_(self):
        nest.work()
        return "<!--self-->"


PLAIN_WAYS = ["ctor", "ctor", "list", "tuple", "nested", "taglist", "taglist_nested", "append", "append_multi", "append_list", "extend", "extend_tuple", "extend_taglist", "extend_gen",
              "insert", "insert_list", "insert_neg", "c_append", "c_insert", "c_extend", "add", "add_bare", "radd", "radd_bare", "add_taglist", "iadd", "iadd_children", "setitem", "mul", "slice", "display",
              "kids_assign", "copy"]
EXP_WAYS = ["x_one", "x_list", "x_list_mixed", "x_tag", "x_repr", "x_deep", "x_two"]
WAYS = PLAIN_WAYS + EXP_WAYS


def sib():
    return gen.weighted(
        (4, gen.SHORT.map(lambda s: ["t", s])),
        (1, st.just(["r", "<r/>"])),
        (1, st.sampled_from([["n", 7], ["n", 0.5], ["N"], ["m", 1], ["t", ""], ["t", "\n"], ["r", "<r/>"], ["h", "&nbsp;"], ["h", "<q>"], ["L", [["t", "u"], ["N"]]]])),
        (2, st.sampled_from([["g", "div", True, [], []], ["g", "span", False, [], [["t", "s"]]], ["g", "br", True, [], []], ["g", "br", False, [], []], ["g", "p", True, [], [["t", "a"], ["t", "b"]]],
                             ["g", "b", False, [["title", ["s", "q\"<"]]], []], ["g", "script", True, [], [["t", "if (a<b && c>d) {}"]]], ["g", "style", True, [], [["t", "a>b{}"]]],
                             ["g", "i", False, [], [["g", "u", False, [], [["t", "<"]]]]], ["d", {"name": "dep", "version": "1.0"}]])),
    )


def sibs(mx=3):
    return gen.weighted((3, st.just([])), (4, st.lists(sib(), max_size=mx)), (1, st.lists(sib(), min_size=4, max_size=12)))


def placement(names=None, ways=WAYS, tops=("tag", "list", "doc"), list_ok=True):
    names = names if names is not None else gen.weighted((5, gen.COMMON), (2, st.sampled_from(gen.VOID)), (2, gen.CUSTOM), (2, st.sampled_from(gen.ORDINARY)))
    level = st.tuples(gen.weighted((4, gen.COMMON), (1, gen.CUSTOM), (1, st.sampled_from(gen.VOID))), st.booleans(), sibs(2), sibs(2)).map(list)
    return st.fixed_dictionaries({
        "top": st.sampled_from(tops),
        "wrap": gen.weighted((3, st.just([])), (4, st.lists(level, max_size=3)), (1, st.lists(level, min_size=4, max_size=9))),
        "parent": st.tuples(names, st.booleans()).map(list) if not list_ok else gen.weighted((5, st.tuples(names, st.booleans()).map(list)), (1, st.none())),
        "way": st.sampled_from(ways),
        "before": sibs(), "after": sibs(),
        "indent": gen.INDENT, "eol": gen.EOL_WS,
    })


def place(p, leaf):
    """-> (tree, expands)"""
    B = [build(n) for n in p["before"]]
    A = [build(n) for n in p["after"]]
    nb = len(flat(p["before"]))
    na = len(flat(p["after"]))
    way, par = p["way"], p["parent"]
    exp = way.startswith("x_")

    def mk(*kids):
        return Tag(par[0], *kids, _add_ws=par[1]) if par else TagList(*kids)

    def kids_of(c):
        return c.children if par else c

    def via(tl):
        """container whose child list came out of a TagList expression"""
        return mk(tl)

    if way == "ctor":
        c = mk(*B, leaf, *A)
    elif way == "list":
        c = mk(*B, [leaf], *A)
    elif way == "tuple":
        c = mk(*B, (leaf,), A)
    elif way == "nested":
        c = mk([B, [None, ([leaf], A)]])
    elif way == "taglist":
        c = mk(*B, TagList(leaf), *A)
    elif way == "taglist_nested":
        c = mk(TagList(*B, [TagList(leaf)]), A)
    elif way == "append":
        c = mk(*B)
        c.append(leaf)
        for a in A:
            c.append(a)
    elif way == "append_multi":
        c = mk()
        c.append(*B, leaf, *A)
    elif way == "append_list":
        c = mk(B)
        c.append([leaf, A])
    elif way == "extend":
        c = mk(*B)
        c.extend([leaf, *A])
    elif way == "extend_tuple":
        c = mk(*B)
        c.extend((leaf,))
        c.extend(tuple(A))
    elif way == "extend_taglist":
        c = mk(*B)
        c.extend(TagList(leaf, A))
    elif way == "extend_gen":
        c = mk(*B)
        c.extend(x for x in [leaf, *A])
    elif way == "insert":
        c = mk(*B, *A)
        c.insert(nb, leaf)
    elif way == "insert_list":
        c = mk(*A)
        c.insert(0, [*B, leaf])
    elif way == "insert_neg":
        c = mk(*B, *A)
        c.insert(-na if na else 10**6, leaf)
    elif way == "c_append":
        c = mk(*B)
        kids_of(c).append(leaf, *A)
    elif way == "c_insert":
        c = mk(*B, *A)
        kids_of(c).insert(nb, leaf)
    elif way == "c_extend":
        c = mk(*B)
        kids_of(c).extend([[leaf], *A])
    elif way == "add":
        c = via(TagList(*B) + [leaf, *A])
    elif way == "add_bare":
        c = via((TagList(*B) + (leaf if isinstance(leaf, str) else [leaf])) + A)
    elif way == "radd":
        c = via([*B, leaf] + TagList(*A))
    elif way == "radd_bare":
        c = via(TagList(*B) + ((leaf if isinstance(leaf, str) else (leaf,)) + TagList(*A)))
    elif way == "add_taglist":
        c = via(TagList(*B) + TagList(leaf) + TagList(*A))
    elif way == "iadd":
        tl = TagList(*B)
        tl += [leaf, *A]
        c = via(tl)
    elif way == "iadd_children":
        c = mk(*B)
        k = kids_of(c)
        k += [[leaf], *A]
    elif way == "setitem":
        c = mk(*B, "OLD", *A)
        kids_of(c)[nb] = str(leaf) if isinstance(leaf, (int, float)) else leaf
    elif way == "mul":
        c = via(TagList(*B) + TagList(leaf) * 1 + A)
    elif way == "slice":
        c = via(TagList("cut", *B, leaf, *A, "cut")[1:-1])
    elif way == "display":
        import htmltools

        c = Tag(*(par or ["div", True])[:1], *B, _add_ws=(par or ["div", True])[1])
        prev = sys.displayhook
        sys.displayhook = lambda v: None
        try:
            with c:
                sys.displayhook(leaf)
                for a in flat(p["after"]):
                    sys.displayhook(build(a))
        finally:
            sys.displayhook = prev
    elif way == "kids_assign":
        c = mk(*B)
        if par:
            c.children = TagList(*B, leaf, *A)
        else:
            c = TagList(*B, leaf, *A)
    elif way == "copy":
        import copy

        c = copy.copy(mk(*B, leaf, *A))
    elif way == "x_one":
        c = mk(*B, LeafExpander(lambda: str(leaf) if isinstance(leaf, (int, float)) else leaf), *A)
    elif way == "x_list":
        c = mk(*B, LeafExpander(lambda: TagList(leaf)), *A)
    elif way == "x_list_mixed":
        c = mk(*B, LeafExpander(lambda: TagList("q", leaf, Tag("b", "z", _add_ws=False), leaf_none())), *A)
    elif way == "x_tag":
        c = mk(*B, LeafExpander(lambda: Tag("em", leaf, _add_ws=False)), *A)
    elif way == "x_repr":
        c = mk(*B, ReprLeafExpander(lambda: TagList(leaf)), *A)
    elif way == "x_deep":
        c = mk(*B, LeafExpander(lambda: TagList("d", TagList(Tag("p", "k", LeafExpander(lambda: TagList(leaf, "j")))).tagify())), *A)
    elif way == "x_two":
        c = mk(LeafExpander(lambda: TagList()), *B, LeafExpander(lambda: TagList(leaf)), LeafExpander(lambda: TagList(*A).tagify()))
    else:
        raise ValueError(way)
    x = c
    for name, ws, b, a in reversed(p["wrap"]):
        x = Tag(name, *[build(n) for n in b], x, *[build(n) for n in a], _add_ws=ws)
    if p["top"] == "list" and isinstance(x, Tag):
        x = TagList(x)
    return x, exp


def leaf_none():
    return None


def outputs(p, leaf):
    """[(label, string)] for every rendering path of the placed leaf."""
    x, exp = place(p, leaf)
    out = []
    if p["top"] == "doc":
        out.append(("HTMLDocument.render", HTMLDocument(x).render()["html"]))
        d = HTMLDocument()
        d.append(x)
        out.append(("HTMLDocument.append+render", d.render(lib_prefix=None)["html"]))
        return out
    if not exp:
        out.append(("get_html_string", x.get_html_string(p["indent"], p["eol"])))
        if isinstance(x, TagList):
            out.append(("get_html_string(add_ws=False)", x.get_html_string(p["indent"], p["eol"], add_ws=False)))
    out.append(("tagify().get_html_string", x.tagify().get_html_string(p["indent"], p["eol"])))
    out.append(("render", x.render()["html"]))
    out.append(("str", str(x)))
    return out


def sized(case):
    """The placement a description of vfw.sizes stands for."""
    n = case["n"]
    way = WAYS[n % len(WAYS)]
    p = {"top": ["tag", "list", "doc"][n % 3], "wrap": [], "parent": ["div", True], "way": way, "before": [], "after": [], "indent": n % 2, "eol": "\n"}
    if case["shape"] == "wide":
        if case["par"]:
            p["parent"] = case["par"]
        c = sizes.copies(case["unit"], n - 1)
        k = {"start": 0, "middle": len(c) // 2, "end": len(c)}[case["where"]]
        p["before"], p["after"] = c[:k], c[k:]
        if n > 300:
            p["way"] = WAYS[n % 4]
    else:
        ls = sizes.LEVELS[case["levels"]]
        p["wrap"] = [[*ls[i % len(ls)], [["t", "b"]] if case["side"] == 1 and i % 3 == 0 else [], [["g", "i", False, [], []]] if case["side"] == 2 and i % 3 == 0 else []] for i in range(n - 1)]
        p["before"] = [["t", "s"]] if case["side"] == 1 else []
    return p
