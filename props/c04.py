"""C04 Trusted markup is emitted verbatim and escaping happens exactly once."""
import itertools
from collections import UserString

from hypothesis import strategies as st

from htmltools import HTML, HTMLDependency, HTMLDocument, Tag, TagList, head_content
from vfw import gen, names, place, sizes, nest
from vfw.build import Repr, Str
from vfw.core import Check, expect, expect_eq, fail
from vfw.oracle import MARK, TEXT_SPECIAL, between, escaped_prefix, verbatim_verifier

from . import c03

META = "&<>\"'\r\n"


# --------------------------------------------------------------------- positions
class HTMLSub(HTML):
    pass


class ReprStr(str):
    """A str that renders itself."""

    def __new__(cls, s):
        self = str.__new__(cls, "<shown & as text>")
        self.s = s
        return self

    def _repr_html_(self):
        nest.work()
        return self.s


def leaf(kind, s):
    return {"rs": ReprStr, "h": HTML, "H": lambda x: HTML(HTML(x)), "hs": HTMLSub, "r": Repr, "script": str, "style": str}[kind](s)


def test_place(case, ctx):
    p, kind, v = case["p"], case["kind"], case["v"]
    if case["pre"]:
        str(Tag("i", v, title=v))
        str(Tag("div", HTML(v), Repr(v)))
    ref = place.outputs(p, leaf(kind, MARK))
    got = place.outputs(p, leaf(kind, v))
    ver = verbatim_verifier(v)
    for (lab, r), (_, g) in zip(ref, got):
        between(g, r, ver, f"{kind} via {lab}, way {p['way']}", text=v)
    ctx.nontrivial(any(c in v for c in META))
    ctx.label("kind " + kind, "way " + p["way"])


MARKUP = gen.weighted((4, gen.MARKUP), (6, gen.HOT))
RAW_SIB = gen.weighted((3, gen.SHORT.map(lambda s: ["t", s])), (1, st.sampled_from([["h", "<!-- & -->"], ["N"], ["n", 4], ["m", 1], ["t", "&amp;"]])))


def strategy_place():
    normal = st.fixed_dictionaries({"v": MARKUP, "kind": st.sampled_from(["h", "h", "H", "hs", "r", "r", "rs"]), "p": place.placement(), "pre": st.booleans()})
    ways = [w for w in place.WAYS if w not in ("x_tag", "x_deep", "x_list_mixed")]

    @st.composite
    def raw(draw):
        v = draw(MARKUP)
        kind = draw(st.sampled_from(["script", "style"]))
        p = draw(place.placement(names=st.just(kind), ways=ways, list_ok=False))
        p["before"] = draw(st.lists(RAW_SIB, max_size=3))
        p["after"] = draw(st.lists(RAW_SIB, max_size=3))
        return {"v": v, "kind": kind, "p": p, "pre": draw(st.booleans())}

    return gen.weighted((3, normal), (2, raw()))


# --------------------------------------------------------------------- document head, dependencies
def doc_forms(v, kind):
    h = {"str": lambda: v, "html": lambda: HTML(v), "repr": lambda: Repr(v), "list": lambda: [HTML(v), Tag("title", "t")], "script": lambda: Tag("script", v), "tagged": lambda: Tag("noscript", HTML(v), "z")}[kind]
    yield "dependency head", HTMLDocument(Tag("div", HTMLDependency("d", "1", head=h()))).render()["html"]
    yield "dependency markup", str(HTMLDependency("d", "1", head=h()).as_html_tags())
    yield "dependency as_dict", HTMLDependency("d", "1", head=h()).as_dict()["head"]
    if kind != "str":
        yield "user head", HTMLDocument(Tag("html", Tag("head", h()), Tag("body"))).render()["html"]
        yield "user body", HTMLDocument(Tag("body", h())).render(lib_prefix=None)["html"]


def test_doc(case, ctx):
    v, kind = case["v"], case["kind"]
    for (lab, g), (_, r) in zip(doc_forms(v, kind), doc_forms(MARK, kind)):
        between(g, r, verbatim_verifier(v), f"{lab} ({kind})", text=v)
    if kind != "str":
        # the name of a head_content item is a digest of its content, so no marker comparison
        h = HTMLDocument("x", head_content({"html": HTML(v), "repr": Repr(v), "list": HTML(v), "script": Tag("script", v), "tagged": Tag("noscript", HTML(v), "z")}[kind])).render()["html"]
        pre = {"script": "<script>"}.get(kind, "")
        expect(pre + v in h, "head_content not verbatim", output=h, text=v)
    ctx.nontrivial(any(c in v for c in META))
    ctx.label("doc " + kind)


def strategy_doc():
    return st.fixed_dictionaries({"v": MARKUP, "kind": st.sampled_from(["str", "html", "repr", "list", "script", "tagged"])})


# --------------------------------------------------------------------- attributes
def strategy_attr():
    val = gen.weighted((6, st.one_of(gen.MARKUP, gen.HOT).map(lambda s: ["h", s])), (1, st.sampled_from([["v", None], ["v", False]])))
    nm = st.sampled_from(["class", "class_", "style", "id", "title", "x_y", "x-y"])
    pair = st.tuples(nm, val).map(list)
    group = st.lists(pair, max_size=3)
    kw = st.lists(st.tuples(st.sampled_from(["class_", "style", "id", "x_y"]), val).map(list), max_size=3)
    h = st.one_of(gen.MARKUP, gen.HOT)
    op = st.one_of(
        st.tuples(st.just("update"), st.lists(group, max_size=2), kw).map(list),
        st.tuples(st.just("set"), nm, val).map(list),
        st.tuples(st.just("class"), h.map(lambda s: ["h", s]), st.booleans()).map(list),
        st.tuples(st.just("style"), h.map(lambda s: ["h", s + ";"]), st.booleans()).map(list),
    )
    return st.fixed_dictionaries({
        "name": gen.TAGNAME, "how": st.sampled_from(["tag", "func", "consolidate", "attrdict", "later"]), "ws": st.booleans(),
        "dicts": st.lists(group, max_size=3), "kw": kw, "ops": st.lists(op, max_size=3), "kids": st.just([["t", "k"]]), "kidpos": st.integers(0, 3), "indent": gen.INDENT, "eol": gen.EOL_WS,
    })


def test_attr(case, ctx):
    c03.test(case, ctx)
    ctx.nontrivial(bool(case["dicts"] or case["kw"] or case["ops"]))


# --------------------------------------------------------------------- concatenation
class Obj:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


StrSub = Str


def value(n):
    k, v = n
    return {"s": lambda: v, "S": lambda: StrSub(v), "h": lambda: HTML(v), "H": lambda: HTML(HTML(v)), "hs": lambda: HTMLSub(v), "v": lambda: v, "o": lambda: Obj(v), "u": lambda: UserString(v)}[k]()


IS_H = {"h", "H", "hs"}


def leaves(e):
    return leaves(e[1]) + leaves(e[2]) if e[0] in ("+", "+=") else [e]


def has_h(e):
    return any(x[0] in IS_H for x in leaves(e))


def is_strish(e):
    return e[0] in ("s", "S") or (e[0] in ("+", "+=") and is_strish(e[1]) and is_strish(e[2]))


def evaluate(e, path=""):
    if e[0] not in ("+", "+="):
        return value(e)
    a, b = evaluate(e[1]), evaluate(e[2])
    sa, sb = str(a), str(b)
    if e[0] == "+":
        r = a + b
    else:
        keep = a
        r = a
        r += b
        expect_eq(str(keep), sa, "+= changed the left operand")
    if not (r is a or r is b):
        expect(str(a) == sa and str(b) == sb, "+ changed an operand", left=sa, right=sb)
    if has_h(e):
        expect(isinstance(r, HTML), "concatenation with HTML() is not HTML()", type=type(r).__name__, expr=e)
        check_parts(str(r), leaves(e), "value of the sum")
    return r


def text_of(n):
    return str(n[1])


def check_parts(raw, parts, msg):
    pos = 0
    for i, n in enumerate(parts):
        s = text_of(n)
        if n[0] in IS_H:
            if not raw.startswith(s, pos):
                fail(f"{msg}: HTML() operand {i} not verbatim", raw=raw, operands=parts)
            pos += len(s)
        else:
            end, why = escaped_prefix(raw, pos, s, TEXT_SPECIAL)
            if end is None:
                fail(f"{msg}: operand {i} not escaped exactly once: {why}", raw=raw, operands=parts)
            pos = end
    expect_eq(raw[pos:], "", f"{msg}: extra output", raw=raw, operands=parts)


def child(n):
    k, v = n
    return HTML(v) if k in IS_H else str(v)


def test_sum(case, ctx):
    e = case["e"]
    ls = leaves(e)
    r = evaluate(e)
    sep = [child(n) for n in ls]
    out = Tag("span", r, _add_ws=False).get_html_string()
    expect_eq(out, Tag("span", *sep, _add_ws=False).get_html_string(), "sum as a child differs from its operands as children", expr=e)
    check_parts(out[6:-7], ls, "sum as only child")
    for mk in (lambda *c: Tag("div", Tag("b", _add_ws=False), *c), lambda *c: Tag("div", "t", *c, Tag("p")), lambda *c: TagList("x", *c, "y"), lambda *c: Tag("b", Tag("p"), *c, _add_ws=False),
               lambda *c: Tag("p", Tag("i", "1", *c, _add_ws=False))):
        expect_eq(mk(r).get_html_string(), mk(*sep).get_html_string(), "sum among siblings differs from its operands", expr=e)
        expect_eq(str(mk(r)), str(mk(*sep)), "sum among siblings differs from its operands (str)", expr=e)
    kinds = {n[0] in IS_H for n in ls}
    ctx.nontrivial(len(ls) >= 3 and len(kinds) == 2)
    ctx.label("operands %d" % min(len(ls), 8))


def strategy_sum():
    s = gen.weighted((4, gen.HOT), (1, gen.TEXT))
    html_leaf = st.tuples(st.sampled_from(["h", "h", "h", "H", "hs"]), s).map(list)
    other = st.one_of(st.tuples(st.sampled_from(["s", "s", "s", "S", "o", "u"]), s).map(list), st.tuples(st.just("v"), st.one_of(gen.NUMBER, st.none())).map(list))
    strs = st.tuples(st.sampled_from(["s", "S"]), s).map(list)

    @st.composite
    def expr(draw, d, want):
        # want: "h" -> contains HTML(); "any"
        if d == 0 or draw(st.integers(0, 5)) == 0:
            return draw(html_leaf) if want == "h" else draw(st.one_of(html_leaf, other))
        op = draw(st.sampled_from(["+", "+", "+="]))
        a = draw(expr(d - 1, "h"))
        b = draw(expr(draw(st.integers(0, d - 1)), "any")) if draw(st.integers(0, 3)) else draw(other)
        if not has_h(b) and b[0] in ("+", "+="):
            b = draw(other)
        return [op, a, b] if draw(st.booleans()) else [op, b, a]

    @st.composite
    def long_chain(draw):
        n = draw(gen.sizes(2, 40, 10))
        e = draw(html_leaf)
        for _ in range(n):
            x = draw(st.one_of(html_leaf, other))
            op = draw(st.sampled_from(["+", "+="]))
            e = [op, e, x] if draw(st.integers(0, 2)) else [op, x, e]
        return e

    @st.composite
    def strsums(draw):
        # plain + plain before an HTML() operand
        e = ["+", draw(strs), draw(strs)]
        if draw(st.booleans()):
            e = ["+", e, draw(strs)]
        return draw(st.sampled_from([["+", e, draw(html_leaf)], ["+", draw(html_leaf), e], ["+=", ["+", draw(html_leaf), draw(other)], e]]))

    return gen.weighted((5, expr(4, "h")), (2, long_chain()), (1, strsums())).map(lambda e: {"e": e})


def shapes(k):
    if k == 1:
        yield None
        return
    for i in range(1, k):
        for a in shapes(i):
            for b in shapes(k - i):
                yield (a, b)


def all_sums(tier):
    alpha = ["&", "<b>", "&amp;", "\"'"]
    for k in range(2, 5 if tier == "quick" else 6):
        for sh in shapes(k):
            for ks in itertools.product("sh", repeat=k):
                if "h" not in ks:
                    continue
                for op in ("+", "+="):
                    for txt in ([alpha[i % 4] for i in range(k)], [alpha[(i + 1) % 2] for i in range(k)], ["&"] * k):
                        it = iter(zip(ks, txt))

                        def fill(x):
                            return list(next(it)) if x is None else [op, fill(x[0]), fill(x[1])]

                        yield {"e": fill(sh)}


def test_size(case, ctx):
    p = place.sized(case)
    kind = ["h", "r", "script"][case["n"] % 3] if case["shape"] == "wide" else ["h", "r"][case["n"] % 2]
    if kind == "script":
        p["parent"] = ["script", True]
        p["before"] = [["t", "a<&"]] * len(p["before"])
        p["after"] = [["t", "a<&"]] * len(p["after"])
    test_place({"p": p, "kind": kind, "v": "<b>&amp;\r\n\"'</b>", "pre": False}, ctx)


def test_names(case, ctx):
    """Trusted markup in, around and below every element, and as the value of every attribute of it."""
    nm, i = case["name"], case["i"]
    raw = nm in gen.RAW
    for j, m in enumerate(names.NAMES):
        v = ("<a&b>", "&lt;x", "</" + nm + "><" + m + ">", "\"'\r\n>", "a", "<!-- & -->", " <b>\n")[(i + j) % 7]
        mt = f"<{m}" + ("/>" if m in gen.VOID else f"></{m}>")
        for kind in ("h", "r", ["H", "hs", "rs"][(i + j) % 3]) + ((nm,) if raw else ()):
            mk = lambda: leaf(kind, v)
            expect_eq(Tag(nm, mk(), _add_ws=False).get_html_string(), f"<{nm}>{v}</{nm}>", f"{kind} as the only child of {nm}")
            if kind not in ("r", "rs"):
                expect_eq(Tag(nm, mk()).get_html_string(), f"<{nm}>{v}</{nm}>", f"{kind} as the only child of block {nm}")
            expect_eq(Tag(nm, "k", mk(), mk(), _add_ws=False).get_html_string(), f"<{nm}>k{v}{v}</{nm}>", f"{kind} among texts in {nm}")
            expect_eq(Tag(nm, "k", Tag(m, _add_ws=False), mk(), _add_ws=False).get_html_string(), f"<{nm}>k{mt}{v}</{nm}>", f"{kind} after {m} in {nm}")
            expect_eq(str(Tag(m, Tag(nm, mk(), _add_ws=False), _add_ws=False)), f"<{m}><{nm}>{v}</{nm}></{m}>", f"{kind} in {nm} in {m}")
            if kind != nm:
                expect_eq(str(Tag("b", mk(), Tag(m, _add_ws=False), mk(), Tag(nm, mk(), _add_ws=False), mk(), _add_ws=False)), f"<b>{v}{mt}{v}<{nm}>{v}</{nm}>{v}</b>", f"{kind} beside {m} and {nm}")
    for k, a in enumerate(names.ATTRS):
        v = ("<a&b>", "&lt;x", "\"'\r\n>", "a", "&quot;", " ")[(i + k) % 6]
        an = gen.norm_name(a)
        tail = "/>" if nm in gen.VOID else f"></{nm}>"
        for t in (Tag(nm, {a: HTML(v)}), Tag(nm, **{a: HTML(v)}), Tag(nm, {a: "x"})):
            if t.attrs[an] == "x":
                t.attrs[a] = HTML(v)
            expect_eq(t.get_html_string(), f'<{nm} {an}="{v}"{tail}', "HTML() attribute value")
        if v.strip():
            expect_eq(Tag(nm, {a: "&"}, {a: HTML(v)}).get_html_string(), f'<{nm} {an}="&amp; {v}"{tail}', "joined HTML() attribute value")
    ctx.nontrivial()


CHECKS = [
    Check("every element", test_names, cases=names.cases),
    Check("sizes", test_size, cases=lambda tier: sizes.cases(tier, attrs=False)),
    Check("all small sums", test_sum, cases=all_sums),
    Check("sums", test_sum, strategy=strategy_sum, quick=1000, thorough=30000),
    Check("positions", test_place, strategy=strategy_place, quick=1200, thorough=40000),
    Check("documents", test_doc, strategy=strategy_doc, quick=500, thorough=10000),
    Check("attributes", test_attr, strategy=strategy_attr, quick=500, thorough=10000),
]
