"""C09 Tagifiable objects render as their expansion, spliced in place."""
import itertools
import os

from hypothesis import strategies as st

from htmltools import HTML, HTMLDocument, Tag, TagList
from vfw import gen, names, sizes, nest
from vfw.build import attr_value, build, flat, stored_attrs, sub
from vfw.core import Check, expect, expect_eq, fail
from vfw.deps import dep_spec, snap

# ["e", kind, nodes, flavour]: a tagifiable object.
#   kind "list": tagify() returns TagList(*nodes); kind "one": it returns the single node
#   flavour: "fresh" (new objects every time), "repr" (also self-rendering), "cached" (same object every time),
#            "str" (has __str__), "iter" (iterable as well), "len0" (falsy)


class Fresh:
    def __init__(self, kind, nodes):
        self.kind, self.nodes, self.calls = kind, nodes, 0

    def tagify(self):
        self.calls += 1
        nest.work()
        return expansion(self.kind, self.nodes)


class ReprX(Fresh):
    def _repr_html_(self):
        nest.work()
        return "<!--self-->"


class Cached(Fresh):
    def tagify(self):
        if not self.calls:
            self.calls = 1
            self.res = expansion(self.kind, self.nodes)
        return self.res


class StrX(Fresh):
    def __str__(self):
        return "STR"

    def __repr__(self):
        return "STR"

    def __html__(self):
        return "STR"


class Falsy(Fresh):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Eq(Fresh):
    """All instances are equal to everything."""

    def __eq__(self, o):
        return True

    __hash__ = None


class SubStr(str):
    """Text that knows how to expand."""

    def __new__(cls, kind, nodes):
        self = str.__new__(cls, "as text")
        self.kind, self.nodes = kind, nodes
        return self

    def tagify(self):
        nest.work()
        return expansion(self.kind, self.nodes)


class SubStrRepr(SubStr):
    def _repr_html_(self):
        nest.work()
        return "<!--self-->"


CLS = {"sub": SubStr, "subrepr": SubStrRepr, "fresh": Fresh, "repr": ReprX, "cached": Cached, "str": StrX, "falsy": Falsy, "eq": Eq}


def mk(n):
    k = n[0]
    if k == "e":
        return CLS[n[3]](n[1], n[2])
    if k == "g":
        return Tag(n[1], *[{a: attr_value(v)} for a, v in n[3]], *[mk(c) for c in n[4]], _add_ws=n[2])
    if k == "L":
        return [mk(c) for c in n[1]]
    if k == "U":
        return tuple(mk(c) for c in n[1])
    if k == "T":
        return TagList(*[mk(c) for c in n[1]])
    return build(n)


def expansion(kind, nodes):
    """Always fully tagified, as the protocol asks: built without any tagifiable in it."""
    ns = subst(nodes)
    objs = [mk(n) for n in ns]
    if kind == "one" and len(flat(ns)) == 1 and ns[0][0] not in "LUTNn":
        return objs[0]
    return TagList(*objs)


def subst(nodes):
    """The spec with every tagifiable replaced by its expansion."""
    out = []
    for n in nodes:
        if n[0] == "e":
            out.extend(subst(n[2]))
        elif n[0] == "g":
            out.append(["g", n[1], n[2], n[3], subst(n[4])])
        elif n[0] in "LUT":
            out.append([n[0], subst(n[1])])
        else:
            out.append(n)
    return out


def count(nodes, pred):
    c = 0
    for n in nodes:
        c += bool(pred(n))
        if n[0] == "g":
            c += count(n[4], pred)
        elif n[0] in "LUT":
            c += count(n[1], pred)
    return c


def rendered(r):
    return r["html"], [snap(d) for d in r["dependencies"]]


PATHS = ["ctor", "append", "insert", "extend", "setitem", "display"]


def assemble(nodes, way):
    """A TagList with these nodes, built one way or the other."""
    objs = [mk(n) for n in nodes]
    if way == "append":
        t = TagList()
        for o in objs:
            t.append(o)
    elif way == "insert":
        t = TagList()
        for o in reversed(objs):
            t.insert(0, o)
    elif way == "extend":
        t = TagList()
        t.extend(objs)
    elif way == "setitem":
        t = TagList(*objs, "END")
        t.pop()
    elif way == "display":
        t = TagList() + objs
    else:
        t = TagList(*objs)
    return t


def compare(nodes, case, ctx):
    plain = subst(nodes)
    x, y = assemble(nodes, case["way"]), TagList(*[mk(n) for n in plain])
    kw = dict(lib_prefix=case["prefix"], include_version=case["ver"])
    for again in range(2 if case["ver"] else 1):
        expect_eq(rendered(x.render()), rendered(y.render()), "list.render() differs from the tree with expansions substituted", tree=nodes, again=again)
        expect_eq(str(x), str(y), "str(list)", tree=nodes)
    expect_eq(snap(x.tagify()), snap(y), "tagify() is not the tree with expansions substituted", tree=nodes)
    expect_eq([snap(d) for d in x.tagify().get_dependencies(dedup=False)], [snap(d) for d in y.get_dependencies(dedup=False)], "dependencies (dedup=False)", tree=nodes)
    expect_eq(rendered(HTMLDocument(x, **case["kw"]).render(**kw)), rendered(HTMLDocument(y, **case["kw"]).render(**kw)), "HTMLDocument.render() differs", tree=nodes)
    d1, d2 = HTMLDocument(**case["kw"]), HTMLDocument(**case["kw"])
    for n in nodes:
        d1.append(mk(n))
    for n in plain:
        d2.append(mk(n))
    expect_eq(rendered(d1.render(**kw)), rendered(d2.render(**kw)), "HTMLDocument built by append differs", tree=nodes)
    # inside a tag
    for name, ws in (case["par"],):
        a, b = Tag(name, *[mk(n) for n in nodes], _add_ws=ws), Tag(name, *[mk(n) for n in plain], _add_ws=ws)
        expect_eq(rendered(a.render()), rendered(b.render()), f"<{name}>.render() differs", tree=nodes)
        expect_eq(snap(a.tagify()), snap(b), f"<{name}>.tagify()", tree=nodes)
        expect_eq(rendered(HTMLDocument(a, **case["kw"]).render(**kw)), rendered(HTMLDocument(b, **case["kw"]).render(**kw)), f"HTMLDocument(<{name}>).render() differs", tree=nodes)
    # un-expanded markup
    raising = count(nodes, lambda n: n[0] == "e" and n[3] not in ("repr", "subrepr"))
    any_x = count(nodes, lambda n: n[0] == "e")
    for obj, lab in ((x, "list"), (Tag(case["par"][0], x, _add_ws=case["par"][1]), "tag")):
        if raising:
            try:
                s = obj.get_html_string(case["indent"], case["eol"])
            except Exception:
                pass
            else:
                fail(f"{lab}.get_html_string() of a tree with un-expanded objects returned markup", output=s, tree=nodes)
        elif any_x:
            s = obj.get_html_string(case["indent"], case["eol"])
            expect(s.count("<!--self-->") == any_x, "self-rendering objects are used through _repr_html_", output=s)
    if not raising and not any_x:
        expect_eq(x.get_html_string(), x.render()["html"], "render is get_html_string when there is nothing to expand")
    return any_x


def test(case, ctx):
    nodes = case["nodes"]
    n = compare(nodes, case, ctx)
    ctx.nontrivial(n >= 1)
    ctx.label("objects: %d" % min(n, 6))
    lens = set()
    count(nodes, lambda x: x[0] == "e" and lens.add((x[1], min(3, len(flat(subst(x[2])))))))
    for k, l in lens:
        ctx.label(f"expansion {k} of length {l}")


# texts that are built as instances of subclasses of str and HTML
LONGSUB = [[k, x] for x in (c + "<&> long text of a str subclass " + e for c in "abc<&\n" for e in "xyz>;\n") if sub(x) for k in "th"]
PLAINNODE = gen.weighted(
    (1, st.sampled_from(LONGSUB)), (4, gen.SHORT.map(lambda s: ["t", s])), (1, st.sampled_from([["h", "<q/>"], ["r", "<r/>"], ["n", 3], ["N"], ["m", 0], ["t", ""], ["h", ""]])),
    (4, st.sampled_from([["g", "p", True, [], [["t", "x"]]], ["g", "b", False, [], []], ["g", "br", True, [], []], ["g", "ul", True, [], [["g", "li", False, [], []], ["t", "w"]]], ["g", "i", False, [], [["g", "div", True, [], [["t", "z"]]]]],
                        ["g", "script", True, [], [["t", "a<b"]]], ["g", "title", False, [], [["t", "T"]]]])),
    (1, st.sampled_from([["g", "html", True, [["id", ["s", "h"]]], [["g", "head", True, [], [["t", "hh"]]], ["g", "body", True, [], [["t", "b"]]]]], ["g", "body", False, [["id", ["s", "b"]]], [["t", "bb"]]], ["g", "head", True, [], [["g", "title", True, [], []]]]])),
    (2, dep_spec(local=None).map(lambda d: ["d", d])),
)


def expander(depth=2):
    flavour = gen.weighted((6, st.just("fresh")), (2, st.just("repr")), (2, st.sampled_from(["cached", "str", "falsy", "eq"])), (1, st.sampled_from(["sub", "subrepr"])))
    inner = PLAINNODE if depth == 0 else gen.weighted((5, PLAINNODE), (2, st.deferred(lambda: expander(depth - 1))),
                                                      (1, st.deferred(lambda: expander(depth - 1)).map(lambda e: ["g", "section", True, [], [e, ["t", "k"]]])),
                                                      (1, st.deferred(lambda: expander(depth - 1)).map(lambda e: ["L", [e]])))
    return st.tuples(st.just("e"), st.sampled_from(["list", "list", "one"]), gen.weighted((1, st.just([])), (3, st.lists(inner, min_size=1, max_size=1)), (3, st.lists(inner, max_size=4)), (1, st.lists(inner, min_size=5, max_size=12))), flavour).map(list)


def strategy():
    leaf = gen.weighted((4, PLAINNODE), (5, expander()))
    name = gen.weighted((6, st.sampled_from(["div", "span", "p", "b", "ul", "li", "script", "style", "br", "pre"])), (1, st.sampled_from(["html", "head", "body", "x-y"])))
    return st.fixed_dictionaries({
        "nodes": gen.weighted((4, gen.tree_nodes(leaf, name=name, attr=st.sampled_from([[], [], [["id", ["s", "x"]]]]), max_leaves=8, fan=4)),
                              (2, st.lists(leaf, min_size=1, max_size=8)), (2, st.lists(expander(), min_size=1, max_size=5)), (1, st.lists(expander(), min_size=6, max_size=14))),
        "way": st.sampled_from(PATHS), "par": st.tuples(st.sampled_from(["div", "span", "section", "br", "head", "html", "html", "body", "script"]), st.booleans()).map(list),
        "prefix": st.sampled_from(["lib", None, "x/y"]), "ver": st.booleans(), "kw": st.dictionaries(st.sampled_from(["lang", "class_"]), st.sampled_from(["en", "<"]), max_size=1),
        "indent": st.integers(0, 3), "eol": gen.EOL_ANY})


# all sibling patterns of plain nodes and objects with expansions of length 0..3
ALPHA = [["t", "a"], ["g", "p", True, [], []],
         ["e", "list", [], "fresh"], ["e", "list", [["t", "1"]], "fresh"], ["e", "list", [["t", "2"], ["g", "b", False, [], []]], "repr"],
         ["e", "list", [["g", "p", True, [], []], ["t", "3"], ["d", {"name": "d3", "version": "1"}]], "fresh"], ["e", "one", [["g", "i", False, [], [["t", "4"]]]], "fresh"], ["e", "one", [["h", "<5/>"]], "fresh"],
         ["e", "one", [["d", {"name": "d6", "version": "1"}]], "fresh"], ["e", "one", [["t", "<7>"]], "cached"], ["e", "one", [["t", "<s>"]], "sub"], ["e", "one", [LONGSUB[0]], "fresh"],
         ["e", "list", [["e", "list", [], "fresh"], ["e", "list", [["t", "8"], ["t", "9"]], "fresh"], ["t", "0"]], "fresh"]]


def test_pattern(case, ctx):
    nodes = [ALPHA[i] for i in case["k"]]
    plain = subst(nodes)
    x, y = TagList(*[mk(n) for n in nodes]), TagList(*[mk(n) for n in plain])
    expect_eq(rendered(x.render()), rendered(y.render()), "list.render() differs from the tree with expansions substituted", tree=nodes)
    expect_eq(snap(x.tagify()), snap(y), "tagify()", tree=nodes)
    a, b = Tag("div", "L", Tag("span", x, _add_ws=False), "R"), Tag("div", "L", Tag("span", y, _add_ws=False), "R")
    expect_eq(rendered(a.render()), rendered(b.render()), "tag.render() differs", tree=nodes)
    expect_eq(rendered(HTMLDocument(*[mk(n) for n in nodes]).render()), rendered(HTMLDocument(*[mk(n) for n in plain]).render()), "HTMLDocument.render() differs", tree=nodes)
    # each object is expanded in its own place: markup is asked for, nothing is emitted before that
    for i, n in enumerate(nodes):
        if n[0] == "e" and n[3] not in ("repr", "subrepr"):
            for t in (x, a, TagList(mk(n)), Tag("br", mk(n)), Tag("script", mk(n)), Tag("div", Tag("p", mk(n), "z"))):
                try:
                    s = t.get_html_string()
                except Exception:
                    continue
                fail("un-expanded object: markup returned instead of an error", output=s, node=n)
    ctx.nontrivial(any(n[0] == "e" for n in nodes))


def patterns(tier):
    for n in range(1, 4 if tier == "quick" else 5):
        for k in itertools.product(range(len(ALPHA)), repeat=n):
            yield {"k": list(k)}


SIZE_LEAF = [["e", "list", [["t", "x<"], ["g", "p", True, [], []]], "fresh"], ["t", "m"], ["e", "list", [], "fresh"], ["e", "one", [["d", {"name": "dd", "version": "1"}]], "fresh"]]


def test_size(case, ctx):
    n = case["n"]
    base = {"way": PATHS[n % 6], "par": ["div", n % 2 == 0], "prefix": "lib", "ver": False, "kw": {}, "indent": 0, "eol": "\n"}
    if case["shape"] == "attrs":  # n objects side by side, the expansions of growing length; one expansion of length n
        nodes = [["e", "list", [["t", str(j)] for j in range(i % 4)], "fresh"] for i in range(n)]
        compare(nodes, base, ctx)
        compare([["t", "a"], ["e", "list", sizes.copies("mixed", n), "fresh"], ["e", "list", [["t", "b"]], "fresh"]], base, ctx)
    else:
        compare(sizes.nodes(case, SIZE_LEAF), base, ctx)
    ctx.nontrivial()


def test_names(case, ctx):
    """Objects inside, around and expanding to every element."""
    nm, i = case["name"], case["i"]
    fl = sorted(CLS)
    G = lambda n, k, ws=True, at=(): ["g", n, ws, [list(a) for a in at], k]
    k = 0
    for body in ([], [["t", "x<"]], [["t", "a"], ["t", "b"]], [G("p", [])], [G(nm, [["t", "q"]])], [["h", "<&>"], G("b", [], False)], [["d", {"name": "dd", "version": "1", "source": {"href": "u"}, "script": [{"src": "s.js"}]}], ["t", "k"]]):
        for ws in (True, False):
            k += 1
            f = lambda j: fl[(i + k * 3 + j) % len(fl)]
            e = ["e", ["list", "one"][(i + k) % 2], body, f(0)]
            el = G(nm, [e], ws, names.attr(i + k * 5) if k % 2 else [])
            for j, nodes in enumerate(([el], [["t", "t"], el, e], [G(nm, [["t", "1"], e, e, G("i", [], False), e], ws)], [["e", ["one", "list"][k % 2], [el], f(1)], ["t", "z"]], [G("div", [G(nm, [G(nm, [e], not ws)], ws), e])])):
                if (i + k + j) % 2 and nm not in ("html", "head", "body", "title", "script", "style", "pre", "textarea", "br", "template"):
                    continue
                compare(nodes, {"way": PATHS[(i + k + j) % len(PATHS)], "prefix": "lib", "ver": True, "kw": {}, "par": [nm, ws], "indent": (k + j) % 3, "eol": "\n"}, ctx)
    ctx.nontrivial()


CHECKS = [
    Check("every element", test_names, cases=names.cases),
    Check("sizes", test_size, cases=lambda tier: sizes.cases(tier, wide=520)),
    Check("sibling patterns", test_pattern, cases=patterns),
    Check("trees", test, strategy=strategy, quick=800, thorough=20000),
]
