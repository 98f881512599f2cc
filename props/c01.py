"""C01 Rendered markup parses back to the same element tree."""
from hypothesis import strategies as st

from htmltools import TagList
from vfw import gen, htmltok, names, sizes
from vfw.build import build, flat, stored_attrs, tag
from vfw.core import Check, expect_eq, fail

VOID = set(gen.VOID)
WSC = " \t\n\r\f"


def exp_runs(nodes):
    """-> (texts, els): texts[i] is the text run before els[i]."""
    texts, els = [""], []
    for n in nodes:
        if n[0] == "g":
            els.append(n)
            texts.append("")
        else:
            texts[-1] += n[1]
    return texts, els


def got_runs(nodes):
    texts, els = [""], []
    for n in nodes:
        if n[0] == "el":
            els.append(n)
            texts.append("")
        elif n[0] == "text":
            texts[-1] += n[1]
        else:
            fail(f"unexpected {n[0]} in output", node=n)
    return texts, els


def compare(got, want, out, path="/"):
    gt, ge = got_runs(got)
    wt, we = exp_runs(want)
    expect_eq([e[1] for e in ge], [e[1] for e in we], f"element sequence under {path}", output=out)
    for i, (g, w) in enumerate(zip(gt, wt)):
        try:
            d = htmltok.decode(g)
        except htmltok.TokError as e:
            fail(f"text run {i} under {path}: {e}", output=out)
        if d != w:
            expect_eq(d.strip(WSC), w.strip(WSC), f"text run {i} under {path}", output=out)
    for i, (g, w) in enumerate(zip(ge, we)):
        p = f"{path}{w[1]}[{i}]/"
        name, kids = w[1], w[4]
        sa = stored_attrs(w[3])
        expect_eq([a for a, _ in g[2]], [a for a, _ in sa], f"attribute names of {p}", output=out)
        for (a, raw), (_, segs) in zip(g[2], sa):
            try:
                d = htmltok.decode(raw)
            except htmltok.TokError as e:
                fail(f"attribute {a} of {p}: {e}", output=out)
            expect_eq(d, " ".join(htmltok.decode(t) if h else t for h, t in segs), f"attribute {a} of {p}", output=out)
        want_form = "selfclosed" if not kids and name in VOID else "pair"
        expect_eq(g[4], want_form, f"tag form of {p}", output=out)
        compare(g[3], kids, out, p)


def check_output(out, nodes):
    if type(out) is not str:
        fail(f"rendering is a {type(out).__name__}, not str")
    try:
        t = htmltok.parse(out)
    except htmltok.TokError as e:
        fail(f"output does not tokenize: {e}", output=out)
    compare(t, nodes, out)


def depth(nodes):
    return 1 + max([depth(n[4]) for n in nodes if n[0] == "g"], default=0)


def count(nodes):
    return sum(1 + count(n[4]) for n in nodes if n[0] == "g")


def test(case, ctx):
    nodes, ind, eol = case["nodes"], case["indent"], case["eol"]
    want = flat(nodes)
    objs = [build(n) for n in nodes]
    tl = TagList(*objs)
    check_output(tl.get_html_string(ind, eol), want)
    check_output(tl.get_html_string(ind, eol, add_ws=case["add_ws"]), want)
    check_output(str(tl), want)
    check_output(tl.render()["html"], want)
    for n in want:
        if n[0] == "g":
            t = tag(n)
            check_output(t.get_html_string(ind, eol), [n])
            check_output(str(t), [n])
            check_output(t.render()["html"], [n])
            break
    c = count(want)
    ctx.nontrivial(c >= 2 or any(n[0] == "g" and (n[3] or n[4]) for n in want))
    d = depth(want)
    ctx.label("depth %s" % ("1-2" if d <= 2 else "3-4" if d <= 4 else "5-9" if d < 10 else "10+"))
    if c > 20:
        ctx.label("elements > 20")
    if any(n[0] == "g" and n[1] in VOID for n in want):
        ctx.label("void at top")


def cases(tier):
    names = sorted(set(gen.HTML_NAMES + gen.SVG_NAMES + gen.VOID + ["my-elem", "x", "h7", "ns:el", "bru", "image"]) - set(gen.RAW))
    kidsets = [[], [["t", ""]], [["t", "x"]], [["t", "a<b>&amp;"]], [["g", "div", True, [], []]], [["g", "br", False, [], []]],
               [["t", "x"], ["g", "i", False, [], [["t", "y"]]], ["t", "z"]], [["N"]], [["n", 3]], [["t", " "], ["t", "\n"]], [["g", "hr", True, [], []], ["t", "&"], ["g", "p", True, [], []]]]
    for nm in names:
        for k, kids in enumerate(kidsets):
            for ws in (True, False):
                el = ["g", nm, ws, [["id", ["s", "a\"b'<&>\n"]], ["x", ["v", True]]] if k % 2 else [], kids]
                for j, top in enumerate(([el], [["g", "div", True, [], [el, ["t", "t"], el]]], [["g", "span", False, [], [["t", "t"], el]]], [["t", "s"], el, el])):
                    yield {"nodes": top, "indent": (k + j) % 3, "eol": ["\n", "\r\n", ""][(k + j) % 3], "add_ws": (k + j) % 2 == 0}
    for depth_ in (50, 120):
        for nm, ws in (("div", True), ("b", False), ("br", False), ("hr", True)):
            x = [["t", "leaf<"]]
            for i in range(depth_):
                x = [["g", nm, ws, [], x + ([["t", "&"]] if i % 7 == 0 else [])]]
            yield {"nodes": x, "indent": 0, "eol": "\n", "add_ws": True}


def strategy():
    esc = gen.TEXT.map(lambda s: ["h", "".join({"&": "&#38;", "<": "&lt;", ">": "&#62;", '"': "&#34;", "'": "&apos;", "\r": "&#xD;", "\n": "&#10;"}.get(c, c) for c in s)])
    tree = gen.tree_nodes(gen.LEAF_TEXT, attr=gen.weighted((3, gen.attrs()), (1, gen.attrs(gen.weighted((1, gen.ATTRVAL), (1, esc))))))
    return st.fixed_dictionaries({"nodes": tree, "indent": gen.INDENT, "eol": gen.EOL_WS, "add_ws": st.booleans()})


SIZE_LEAF = [["t", "l<"], ["g", "i", False, [["x", ["s", "<\""]]], [["t", "&"]]], ["g", "hr", True, [], []], ["t", ">"]]


def test_size(case, ctx):
    nodes = sizes.nodes(case, SIZE_LEAF)
    test({"nodes": nodes, "indent": case["n"] % 3, "eol": ["\n", "\r\n"][case["n"] % 2], "add_ws": True}, ctx)


def test_names(case, ctx):
    if case["name"] in gen.RAW:
        return
    def ordinary(nodes):
        return all(n[0] in "tn" or n[0] == "g" and n[1] not in gen.RAW and ordinary(n[4]) for n in nodes)

    for k, nodes in enumerate([*names.shapes(case["name"], case["i"]), *names.pairs(case["name"], case["i"])]):
        if ordinary(nodes):
            tl = TagList(*[build(n) for n in nodes])
            check_output(tl.get_html_string(k % 3, ["\n", "\r\n", ""][k % 3], add_ws=k % 2 == 0), nodes)
            check_output(str(tl[0]), nodes[:1])
    # every attribute on the element
    for k, a in enumerate(names.ATTRS):
        b = names.ATTRS[(k * 5 + case["i"]) % len(names.ATTRS)]
        n = ["g", case["name"], k % 2 == 0, [[a, ["s", ["v", "", " x ", "a&b", '"', "true"][(k + case["i"]) % 6]]]] + ([[b, ["v", [True, 1, "z"][k % 3]]]] if gen.norm_name(b) != gen.norm_name(a) else []), [["t", "t"]] if k % 3 else []]
        check_output(str(build(n)), [n])
    ctx.nontrivial()


CHECKS = [Check("every element", test_names, cases=names.cases), Check("catalogue", test, cases=cases), Check("sizes", test_size, cases=lambda tier: sizes.cases(tier, units=[u for u in sizes.UNITS if u != "mixed"])), Check("trees", test, strategy=strategy, quick=1200, thorough=40000)]
