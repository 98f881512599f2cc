"""C05 No whitespace is ever injected into inline content."""
import itertools

from hypothesis import strategies as st

import htmltools.svg as S
import htmltools.tags as T
from htmltools import HTML, HTMLDocument, Tag, TagList
from vfw import gen, names, sizes
from vfw.build import Repr, attr_value, build, flat
from vfw.core import Check, expect, expect_eq, fail

G = (None,)  # marker type below


# pieces: (string, touches_block_on_left, touches_block_on_right)
_cache = {}


def leaf_piece(n):
    if n[0] in "hr":
        return n[1]
    o = Tag("b", n[1], _add_ws=False).get_html_string()
    return o[3:-4]


def open_close(n, has_kids):
    name, at = n[1], [{a: attr_value(v)} for a, v in n[3]]
    if not has_kids:
        o = Tag(name, *at, _add_ws=False).get_html_string()
        if o.endswith("/>"):
            return o, None
        return o[: -len(name) - 3], "</" + name + ">"
    o = Tag(name, *at, "X", _add_ws=False).get_html_string()
    return o[: -len(name) - 4], "</" + name + ">"


def visible(nodes):
    return [n for n in nodes if n[0] not in "md"]


def pieces(nodes):
    """[(string, is_block_tag_piece)] in document order."""
    out = []
    for n in visible(nodes):
        if n[0] == "g":
            kids = visible(n[4])
            o, c = open_close(n, bool(kids))
            out.append((o, n[2]))
            out.extend(pieces(kids))
            if c is not None:
                out.append((c, n[2]))
        else:
            out.append((leaf_piece(n), False))
    return out


def gap(pos, out, eol):
    todo, seen = list(pos), set(pos)
    while todo:
        p = todo.pop()
        for w in (eol, " "):
            if w and out.startswith(w, p) and p + len(w) not in seen:
                seen.add(p + len(w))
                todo.append(p + len(w))
    return seen


def match(out, ps, eol, lead, msg):
    pos = {0}
    prev = lead
    for i, (s, blk) in enumerate(ps):
        # an empty piece joins its neighbours: white space beside a block tag may be on either side of it
        if prev or blk:
            pos = gap(pos, out, eol)
        nxt = {p + len(s) for p in pos if out.startswith(s, p)}
        if not nxt:
            k = max(pos)
            fail(f"{msg}: expected {s!r} (piece {i}) {'directly' if not (prev or blk) else 'after layout white space'} at {out[k:k+60]!r}", output=out, pieces=[p for p, _ in ps][max(0, i - 4): i + 2])
        pos = nxt
        if s or blk:
            prev = blk
    if prev:
        pos = gap(pos, out, eol)
    if len(out) not in pos:
        fail(f"{msg}: extra output {out[max(pos):][:60]!r}", output=out)


def no_ws(n):
    return n[0] != "g" or (not n[2] and all(no_ws(c) for c in n[4]))


def exact(nodes):
    return "".join(s for s, _ in pieces(nodes))


def inline_subtrees(nodes):
    for n in nodes:
        if n[0] == "g":
            if no_ws(n):
                yield n
            else:
                yield from inline_subtrees(n[4])


def check_tree(nodes, ind, eol, add_ws, ctx):
    objs = [build(n) for n in nodes]
    want = flat(nodes)
    ps = pieces(want)
    tl = TagList(*objs)
    match(tl.get_html_string(ind, eol), ps, eol, ind > 0, "list")
    match(tl.get_html_string(ind, eol, add_ws=add_ws), ps, eol, ind > 0, f"list add_ws={add_ws}")
    match(str(tl), ps, "\n", False, "str(list)")
    match(tl.render()["html"], ps, "\n", False, "list.render()")
    for n in want:
        if n[0] == "g":
            t = build(n)
            p1 = pieces([n])
            match(t.get_html_string(ind, eol), p1, eol, ind > 0, "tag")
            match(str(t), p1, "\n", False, "str(tag)")
            break
    doc = HTMLDocument(*[build(n) for n in nodes]).render()["html"]
    for k, n in enumerate(inline_subtrees(want)):
        e = exact([n])
        if k < 3:
            expect_eq(build(n).get_html_string(0, eol), e, "inline subtree is not the exact concatenation", tree=n)
            expect_eq(str(build(n)), e, "inline subtree is not the exact concatenation (str)", tree=n)
            expect_eq(build(n).get_html_string(ind, eol).lstrip(" "), e, "indented inline subtree", tree=n)
        if not (len(visible(want)) == 1 and want[0][0] == "g" and n[1] in ("html", "body", "head")):
            expect(e in doc, "inline subtree not contiguous in the document", output=doc, want=e)
    blk = any(b for _, b in ps)
    ctx.nontrivial(len(ps) >= 3 and any(not a[1] and not b[1] for a, b in zip(ps, ps[1:])))
    ctx.label("with block tags" if blk else "all inline")


def test(case, ctx):
    check_tree(case["nodes"], case["indent"], case["eol"], case["add_ws"], ctx)


NAME = gen.weighted((6, st.sampled_from(["div", "span", "p", "a", "b", "em", "ul", "li", "pre", "textarea", "code", "svg", "button", "table"])), (2, st.sampled_from(gen.ORDINARY)), (3, st.sampled_from(gen.VOID)), (1, gen.CUSTOM))
TXT = gen.weighted((3, st.sampled_from(["a", "b", "word", " lead", "trail ", " ", "", "\n", "x\ny", "\n\n z \n", "1  2"])), (1, gen.TEXT), (1, st.text(st.characters(max_codepoint=126), min_size=1, max_size=3)))
LEAF = gen.weighted((5, TXT.map(lambda s: ["t", s])), (2, st.one_of(TXT, st.sampled_from(["<i>q</i>", "<div>\n</div>", "&nbsp;"])).map(lambda s: ["h", s])),
                    (2, st.one_of(TXT, st.sampled_from(["<u>\n  k\n</u>", "<p></p>"])).map(lambda s: ["r", s])), (1, st.sampled_from([["m", 0], ["m", 1], ["N"], ["n", 5], ["n", 0.5], ["d", {"name": "a", "version": "1"}]])))
ATTR = gen.weighted((4, st.sampled_from([[], [], [["id", ["s", "x"]]], [["a", ["s", "1"]], ["b", ["v", True]]]])), (1, gen.attrs(gen.ATTRVAL_H)))


def strategy():
    # inline-heavy and block-heavy mixtures
    ws = st.sampled_from([True, False, False])
    return st.fixed_dictionaries({"nodes": gen.tree_nodes(LEAF, name=NAME, ws=ws, attr=ATTR, max_leaves=16), "indent": gen.INDENT, "eol": gen.EOL_ANY, "add_ws": st.booleans()})


def strategy_inline():
    return st.fixed_dictionaries({"nodes": gen.tree_nodes(LEAF, name=NAME, ws=gen.weighted((12, st.just(False)), (1, st.just(True))), attr=ATTR, max_leaves=20), "indent": gen.INDENT, "eol": gen.EOL_ANY, "add_ws": st.booleans()})


KINDS = [
    ["t", "a"], ["h", "<h/>"], ["r", "<r/>"], ["m", 0],
    ["g", "div", True, [], []], ["g", "p", True, [], [["t", "x"]]], ["g", "span", False, [], []], ["g", "b", False, [], [["t", "y"]]],
    ["g", "hr", True, [], []], ["g", "br", False, [], []],
    ["g", "i", False, [], [["g", "div", True, [], [["t", "z"]]]]], ["g", "ul", True, [], [["g", "li", False, [], []], ["t", "w"]]],
    ["g", "em", False, [], [["t", "k"], ["g", "hr", True, [], []], ["r", "<q>"]]], ["t", ""],
]


def test_pattern(case, ctx):
    kids = [KINDS[i] for i in case["k"]]
    par = case["p"]
    nodes = kids if par is None else [["g", par[0], par[1], [], kids]]
    if case["w"] is not None:
        nodes = [["t", "L"], ["g", case["w"][0], case["w"][1], [], [["t", "["], *nodes, ["t", "]"]]]]
    want = flat(nodes)
    ps = pieces(want)
    for ind, eol, aw in case["args"]:
        tl = TagList(*[build(n) for n in nodes])
        match(tl.get_html_string(ind, eol, add_ws=aw), ps, eol, ind > 0, "list")
        if len(want) == 1 and want[0][0] == "g":
            match(tl[0].get_html_string(ind, eol), ps, eol, ind > 0, "tag")
    match(str(tl), ps, "\n", False, "str")
    ctx.nontrivial(len(case["k"]) >= 2)


def patterns(tier):
    pars = [None, ["div", True], ["span", False]]
    wraps = [None, ["p", True], ["a", False]]
    args = [[0, "\n", True], [2, "|", False]]
    mx = 3 if tier == "quick" else 4
    for n in range(0, mx + 1):
        for k in itertools.product(range(len(KINDS)), repeat=n):
            for i, p in enumerate(pars):
                if n < 3:
                    for w in wraps:
                        yield {"k": list(k), "p": p, "w": w, "args": args + [[1, "", True], [0, "\r\n", False]]}
                else:
                    yield {"k": list(k), "p": p, "w": wraps[sum(k) % 3], "args": args}


def test_functions(case, ctx):
    mod = {"tags": T, "svg": S}[case["mod"]]
    el, block = gen.CAT[case["mod"]][case["f"]]
    f = getattr(mod, case["f"])
    if el in gen.RAW:
        return
    if not block:
        x = f("u", T.b("v"))
        e = f"<{el}>u<b>v</b></{el}>"
        expect_eq(str(T.span("s", x, "t")), f"<span>s{e}t</span>", "inline element in inline context", f=case["f"])
        expect_eq(str(T.div("s", x, x, HTML("t"), Repr("w"))), f"<div>\n  s{e}{e}tw\n</div>", "inline element in block context", f=case["f"])
        ctx.nontrivial()


def functions(tier):
    for mod in ("tags", "svg"):
        for f in sorted(gen.CAT[mod]):
            yield {"mod": mod, "f": f}


# ----------------------------------------------------------------- every character at the ends of a text
CHARS = [chr(c) for c in range(1, 0x180)] + list("\u2028\u2029\u200b\u200d\ufeff\u00ad\u0378\ue000\ufffd\U0001f600\u0416\u05d0\u3042") + gen.HOSTILE + ["<p>", "<b>x</b>", "<p>\n</p>\n", "  <i>", "{{ x }}", "<%= y %>", "//", "/* c */", "http://a.b/?c=d&e", "=" * 80, "a " * 60, "- ", "1.", "\n\n"]


def char_cases(tier):
    for i, c in enumerate(CHARS):
        yield {"c": c, "k": "thr"[i % 3]}
        yield {"c": c, "k": "t"}


def char_nodes(c, k):
    b, s = ["g", "p", True, [], [["t", "e"]]], ["g", "span", False, [], [[k, c + "w"]]]
    return [[[k, c + "x"], b, [k, "x" + c], s, [k, c]], [["g", "div", True, [], [[k, c + "_" + c]]], ["g", "div", True, [], [b, [k, c + "y"], [k, c], b]], ["g", "b", False, [], [[k, c], s, [k, "z" + c]]]]]


def test_char(case, ctx):
    for j, nodes in enumerate(char_nodes(case["c"], case["k"])):
        check_tree(nodes, j, ["\n", "\r\n"][j], True, ctx)


SIZE_LEAF = [["t", "l"], ["g", "i", False, [], [["t", "q"], ["g", "u", False, [], [["r", "<w>"]]]]], ["h", "<k/>"], ["g", "p", True, [], [["t", "e"], ["g", "s", False, [], []]]], ["g", "img", False, [], []], ["t", "f"]]


def test_size(case, ctx):
    check_tree(sizes.nodes(case, SIZE_LEAF), case["n"] % 3, ["\n", "|", "\r\n"][case["n"] % 3], case["n"] % 2 == 0, ctx)


def test_names(case, ctx):
    for k, nodes in enumerate(itertools.chain(names.shapes(case["name"], case["i"]), names.pairs(case["name"], case["i"]))):
        check_tree(nodes, k % 3, ["\n", "|", "\r\n"][k % 3], k % 2 == 0, ctx)


CHECKS = [
    Check("characters", test_char, cases=char_cases),
    Check("every element", test_names, cases=names.cases),
    Check("sizes", test_size, cases=lambda tier: sizes.cases(tier, attrs=False)),
    Check("functions", test_functions, cases=functions),
    Check("sibling patterns", test_pattern, cases=patterns),
    Check("trees", test, strategy=strategy, quick=1500, thorough=25000),
    Check("inline trees", test, strategy=strategy_inline, quick=700, thorough=15000),
]
