"""C06 Block layout follows the documented line and indentation rules."""
import itertools

from hypothesis import strategies as st

from htmltools import HTMLDocument, TagList
from vfw import gen, names, sizes
from vfw.build import build, flat
from vfw.core import Check, expect, expect_eq

from .c05 import ATTR, LEAF, NAME, char_cases, char_nodes, leaf_piece, open_close, visible


# ----------------------------------------------------------------- the layout model
def inline_string(n, raw=False):
    """A node without block tags in it: no layout at all."""
    if n[0] != "g":
        return n[1] if raw else leaf_piece(n)
    kids = visible(n[4])
    o, c = open_close(n, bool(kids))
    r = n[1] in gen.RAW
    return o + "".join(inline_string(k, r) for k in kids) + (c or "")


def is_block(n):
    return n[0] == "g" and n[2]


def block_lines(n, level):
    kids = visible(n[4])
    o, c = open_close(n, bool(kids))
    r = n[1] in gen.RAW
    if not kids:
        return [(level, o + (c or ""))]
    if len(kids) == 1 and kids[0][0] in "th":
        return [(level, o + inline_string(kids[0], r) + c)]
    return [(level, o), *sibling_lines(kids, level + 1, r), (level, c)]


def sibling_lines(nodes, level, raw=False):
    """Each maximal run of non-block siblings is one line; each block child its own lines."""
    out, run = [], None
    for n in visible(nodes):
        if is_block(n):
            if run is not None:
                out.append((level, run))
                run = None
            out.extend(block_lines(n, level))
        else:
            run = (run or "") + inline_string(n, raw)
    if run is not None:
        out.append((level, run))
    return out


def layout(nodes, level, eol, add_ws=True):
    ls = sibling_lines(nodes, level)
    v = visible(nodes)
    if not add_ws and v and not is_block(v[0]):
        ls[0] = (0, ls[0][1])
    return eol.join("  " * k + s for k, s in ls)


def legal(nodes, inside_inline=False):
    """Make inline tags contain no block tags."""
    out = []
    for n in nodes:
        if n[0] == "g":
            ws = n[2] and not inside_inline
            out.append(["g", n[1], ws, n[3], legal(n[4], inside_inline or not ws)])
        elif n[0] in "LUT":
            out.append([n[0], legal(n[1], inside_inline)])
        else:
            out.append(n)
    return out


def check_layout(nodes, ind, eol, doc=True):
    want = flat(nodes)
    tl = TagList(*[build(n) for n in nodes])
    expect_eq(tl.get_html_string(ind, eol), layout(want, ind, eol), f"list layout indent={ind} eol={eol!r}", nodes=want)
    expect_eq(tl.get_html_string(indent=ind, eol=eol, add_ws=True), layout(want, ind, eol), "list layout add_ws=True", nodes=want)
    expect_eq(tl.get_html_string(ind, eol, add_ws=False), layout(want, ind, eol, False), "list layout add_ws=False", nodes=want)
    expect_eq(tl.get_html_string(), layout(want, 0, "\n"), "list layout, default arguments", nodes=want)
    expect_eq(str(tl), layout(want, 0, "\n"), "str(list)", nodes=want)
    expect_eq(tl.render()["html"], layout(want, 0, "\n"), "list.render()", nodes=want)
    k = 0
    for n in want:
        if n[0] == "g" and k < 2:
            k += 1
            t = build(n)
            expect_eq(t.get_html_string(ind, eol), layout([n], ind, eol), f"tag layout indent={ind} eol={eol!r}", nodes=n)
            expect_eq(t.get_html_string(), layout([n], 0, "\n"), "tag layout, default arguments", nodes=n)
            expect_eq(t.get_html_string(eol=eol), layout([n], 0, eol), "tag layout, eol only", nodes=n)
            expect_eq(str(t), layout([n], 0, "\n"), "str(tag)", nodes=n)
            expect_eq(t.render()["html"], layout([n], 0, "\n"), "tag.render()", nodes=n)
    if doc and not (len(want) == 1 and want[0][0] == "g" and want[0][1] in ("html", "body")) and not has_dep(want):
        html = ["g", "html", True, [], [["g", "head", True, [], [["g", "meta", True, [["charset", ["s", "utf-8"]]], []]]], ["g", "body", True, [], want]]]
        expect_eq(HTMLDocument(*[build(n) for n in nodes]).render()["html"], "<!DOCTYPE html>\n" + layout([html], 0, "\n"), "document layout", nodes=want)


def has_dep(nodes):
    return any(n[0] == "d" or (n[0] == "g" and has_dep(n[4])) for n in nodes)


def count_block(nodes):
    return sum((1 if n[2] else 0) + count_block(n[4]) for n in nodes if n[0] == "g")


def depth(nodes):
    return max([1 + depth(n[4]) for n in nodes if n[0] == "g"], default=0)


def test(case, ctx):
    nodes = legal(case["nodes"])
    check_layout(nodes, case["indent"], case["eol"])
    w = flat(nodes)
    b = count_block(w)
    ctx.nontrivial(b >= 1 and len(sibling_lines(w, 0)) >= 2)
    ctx.label("blocks %s" % ("0" if b == 0 else "1-3" if b < 4 else "4+"), "indent>0" if case["indent"] else "indent 0", f"eol {case['eol']!r}", "depth %d" % min(depth(w), 9))


def strategy():
    leaf = gen.weighted((14, LEAF), (1, st.sampled_from([["g", "script", True, [], [["t", "if (a<b) {\n  c && d\n}"]]], ["g", "style", True, [], [["t", "a > b {}"], ["t", "c"]]], ["g", "script", True, [["src", ["s", "x.js"]]], []]])))
    return st.fixed_dictionaries({"nodes": gen.tree_nodes(leaf, name=NAME, ws=st.sampled_from([True, True, False]), attr=ATTR, max_leaves=18), "indent": gen.INDENT, "eol": gen.EOL_ANY})


KINDS = [
    ["t", "a"], ["h", "<h/>"], ["r", "<r/>\n<s/>"], ["m", 0],
    ["g", "div", True, [], []], ["g", "p", True, [], [["t", "x\ny"]]], ["g", "span", False, [], []], ["g", "b", False, [], [["t", "y"], ["g", "br", False, [], []], ["r", "q"]]],
    ["g", "hr", True, [], []], ["g", "br", False, [], []], ["g", "ul", True, [], [["g", "li", False, [], []], ["g", "li", True, [], [["r", "w"]]], ["t", "w"]]], ["t", ""],
    ["d", {"name": "z", "version": "1"}], ["g", "section", True, [], [["m", 1]]], ["g", "nav", True, [], [["m", 1], ["h", "one"]]],
]


def test_pattern(case, ctx):
    kids = [KINDS[i] for i in case["k"]]
    nodes = kids if case["p"] is None else [["g", case["p"][0], case["p"][1], [], kids]]
    if case["p"] is not None and not case["p"][1] and any(is_block(n) for n in kids):
        return
    if case["w"]:
        nodes = [["g", "article", True, [], [["t", "["], *nodes, ["g", "i", False, [], []]]]]
    for ind, eol in case["args"]:
        check_layout(nodes, ind, eol, doc=False)
    ctx.nontrivial(len(case["k"]) >= 2)


def patterns(tier):
    pars = [None, ["div", True], ["br", True], ["span", False]]
    mx = 3 if tier == "quick" else 4
    for n in range(0, mx + 1):
        for k in itertools.product(range(len(KINDS)), repeat=n):
            for i, p in enumerate(pars):
                if n < 3:
                    for w in (False, True):
                        yield {"k": list(k), "p": p, "w": w, "args": [[0, "\n"], [2, "|"], [1, ""], [3, "\r\n"]]}
                elif i < 2:
                    yield {"k": list(k), "p": p, "w": sum(k) % 2 == 1, "args": [[sum(k) % 4, ["\n", "|", "\r\n"][sum(k) % 3]]]}


def test_char(case, ctx):
    for j, nodes in enumerate(char_nodes(case["c"], case["k"])):
        check_layout(legal(nodes), j, ["\n", "\r\n"][j])
    ctx.nontrivial(True)


SIZE_LEAF = [["t", "l"], ["g", "i", False, [], [["t", "q"], ["g", "u", False, [], [["r", "<w>"]]]]], ["h", "<k/>"], ["g", "p", True, [], [["t", "e"], ["g", "s", False, [], []]]], ["g", "img", False, [], []], ["t", "f"]]


def test_size(case, ctx):
    nodes = legal(sizes.nodes(case, SIZE_LEAF))
    check_layout(nodes, case["n"] % 3, ["\n", "|", "\r\n"][case["n"] % 3])
    ctx.nontrivial()


def test_names(case, ctx):
    for k, nodes in enumerate(itertools.chain(names.shapes(case["name"], case["i"]), names.pairs(case["name"], case["i"]))):
        check_layout(legal(nodes), k % 3, ["\n", "|", "\r\n"][k % 3], doc=k % 8 == 0)
    ctx.nontrivial()


CHECKS = [
    Check("characters", test_char, cases=char_cases),
    Check("every element", test_names, cases=names.cases),
    Check("sizes", test_size, cases=lambda tier: sizes.cases(tier, attrs=False)),
    Check("sibling patterns", test_pattern, cases=patterns),
    Check("trees", test, strategy=strategy, quick=1000, thorough=30000),
]
