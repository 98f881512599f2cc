"""C07 Metadata nodes leave no trace in the markup."""
import itertools

from hypothesis import strategies as st

from htmltools import HTMLDependency, HTMLDocument, MetadataNode, Tag, TagList, head_content
from vfw import gen, names, nest, sizes
from vfw.build import Meta, build, flat
from vfw.core import Check, expect, expect_eq, fail
from vfw.oracle import resolve

from .c05 import ATTR, LEAF, NAME


class ReprMeta(MetadataNode):
    """Metadata that could render itself elsewhere."""

    def _repr_html_(self):
        return "<!--TRACE-->"

    def __str__(self):
        return "TRACE"


class SubDep(HTMLDependency):
    pass


class FalsyMeta(MetadataNode):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


METAS = {
    "plain": lambda: MetadataNode(),
    "value": lambda: Meta(3),
    "repr": ReprMeta,
    "falsy": FalsyMeta,
    "dep": lambda: HTMLDependency("d", "1.0"),
    "dep2": lambda: HTMLDependency("d", "1.1", script={"src": "a.js"}, source={"href": "http://x"}),
    "full": lambda: HTMLDependency("e", "2", source={"subdir": "x"}, script=[{"src": "a.js"}], stylesheet={"href": "s.css"}, meta={"name": "n", "content": "c"}, head="<b>TRACE</b>", all_files=True),
    "headtags": lambda: HTMLDependency("f", "1", head=Tag("title", "TRACE")),
    "sub": lambda: SubDep("g", "1"),
    "hc": lambda: head_content(Tag("meta", name="TRACE"), "TRACE"),
}
NAMES = {"dep": ("d", "1.0"), "dep2": ("d", "1.1"), "full": ("e", "2"), "headtags": ("f", "1"), "sub": ("g", "1"), "hc": ("hc", "0.0")}


def build_m(n):
    """build() that also knows ["M", kind]."""
    k = n[0]
    if k == "M":
        return METAS[n[1]]()
    if k == "g":
        from vfw.build import attr_value

        return Tag(n[1], *[{a: attr_value(v)} for a, v in n[3]], *[build_m(c) for c in n[4]], _add_ws=n[2])
    if k == "L":
        return [build_m(c) for c in n[1]]
    if k == "U":
        return tuple(build_m(c) for c in n[1])
    if k == "T":
        return TagList(*[build_m(c) for c in n[1]])
    if k == "x":
        nodes = n[2]

        class E:
            def tagify(self):
                nest.work()
                if n[1] == "one" and len(nodes) == 1 and nodes[0][0] == "g":
                    return build_m(nodes[0]).tagify()
                return TagList(*[build_m(c) for c in nodes]).tagify()

        return E()
    return build(n)


def kid_lists(nodes):
    """Every child list in the spec (the lists themselves, for mutation)."""
    yield nodes
    for n in nodes:
        if n[0] == "g":
            yield from kid_lists(n[4])
        elif n[0] in "LUT":
            yield from kid_lists(n[1])
        elif n[0] == "x":
            yield from kid_lists(n[2])


def clone(nodes):
    import json

    return json.loads(json.dumps(nodes))


def insert_all(nodes, ins):
    nodes = clone(nodes)
    for where, kind, run in ins:
        slots = [(l, i) for l in kid_lists(nodes) for i in range(len(l) + 1)]
        l, i = slots[where % len(slots)]
        l[i:i] = [["M", kind]] * run
    return nodes


def deps_of(nodes):
    out = []
    for n in nodes:
        if n[0] == "M" and n[1] in NAMES:
            out.append({"name": NAMES[n[1]][0], "version": NAMES[n[1]][1]})
        elif n[0] == "g":
            out += deps_of(n[4])
        elif n[0] in "LUT":
            out += deps_of(n[1])
        elif n[0] == "x":
            out += deps_of(n[2])
    return out


def has_x(nodes):
    return any(n[0] == "x" or (n[0] == "g" and has_x(n[4])) or (n[0] in "LUT" and has_x(n[1])) for n in nodes)


def dep_id(d):
    return ["hc" if d.name.startswith("headcontent_") else d.name, str(d.version)]


def strings(x, ind, eol, exp):
    r = x.tagify()
    out = [("tagify+get_html_string", r.get_html_string(ind, eol)), ("render", x.render()["html"]), ("str", str(x)), ("repr_html", x._repr_html_())]
    if isinstance(x, TagList):
        out.append(("add_ws=False", r.get_html_string(ind, eol, add_ws=False)))
    if not exp:
        out.append(("get_html_string", x.get_html_string(ind, eol)))
    return out


def compare(base, withm, ind, eol, ctx=None):
    exp = has_x(base)
    a, b = TagList(*[build_m(n) for n in base]), TagList(*[build_m(n) for n in withm])
    for (lab, x), (_, y) in zip(strings(a, ind, eol, exp), strings(b, ind, eol, exp)):
        expect_eq(y, x, f"metadata changed the markup ({lab}, indent={ind}, eol={eol!r})", tree=withm)
    want = deps_of(withm)
    expect_eq([dep_id(d) for d in b.tagify().get_dependencies(dedup=False)], [[d["name"], d["version"]] for d in want], "dependency list (dedup=False)", tree=withm)
    expect_eq([dep_id(d) for d in b.render()["dependencies"]], [[d["name"], d["version"]] for d in resolve(want)], "dependency list", tree=withm)
    expect_eq(a.render()["dependencies"], [], "dependencies without metadata", tree=base)
    ga, gb = [n for n in base if n[0] == "g"], [n for n in withm if n[0] == "g"]
    for x, y in list(zip(ga, gb))[:2]:
        e = has_x([x])
        tx, ty = build_m(x), build_m(y)
        for (lab, p), (_, q) in zip(strings(tx, ind, eol, e), strings(ty, ind, eol, e)):
            expect_eq(q, p, f"metadata changed the markup of a tag ({lab}, indent={ind}, eol={eol!r})", tree=y)
        expect_eq([dep_id(d) for d in ty.render()["dependencies"]], [[d["name"], d["version"]] for d in resolve(deps_of([y]))], "dependency list of a tag", tree=y)


def uses(nodes, names):
    return any(n[0] == "g" and (n[1] in names or uses(n[4], names)) or (n[0] in "LUT" and uses(n[1], names)) or (n[0] == "x" and uses(n[2], names)) for n in nodes)


def test(case, ctx):
    base, ind, eol = case["nodes"], case["indent"], case["eol"]
    withm = insert_all(base, case["ins"])
    compare(base, withm, ind, eol)
    # the document: only its head may differ
    if not uses(base, ("html", "body", "head")):
        a = HTMLDocument(*[build_m(n) for n in base]).render()["html"]
        b = HTMLDocument(*[build_m(n) for n in withm]).render()["html"]
        expect_eq(b[b.index("\n  <body"):] if "\n  <body" in b else b, a[a.index("\n  <body"):] if "\n  <body" in a else a, "metadata changed the body of the document", tree=withm)
        if not deps_of(withm):
            expect_eq(b, a, "plain metadata changed the document", tree=withm)
    # inserting into and removing from a live tree
    f = [n for n in flat(base) if n[0] == "g"]
    if f and not has_x(f[:1]):
        t = build_m(f[0])
        s0 = t.get_html_string(ind, eol)
        kids = t
        for k in case["path"]:
            tags = [c for c in kids.children if isinstance(c, Tag)]
            if not tags:
                break
            kids = tags[k % len(tags)]
        for where, kind, run in case["ins"]:
            i = where % (len(kids.children) + 1)
            m = [METAS[kind]() for _ in range(run)]
            if where % 3 == 0:
                kids.insert(i, m)
            elif where % 3 == 1:
                kids.children.insert(i, m)
            else:
                kids.append(*m)
                i = len(kids.children) - len(m)
            expect_eq(t.get_html_string(ind, eol), s0, "inserting metadata into a live tag changed its markup")
            expect_eq(str(t), t.render()["html"], "str/render")
            if where % 2:
                del kids.children[i : i + len(m)]
                expect_eq(t.get_html_string(ind, eol), s0, "removing metadata changed the markup")
    ctx.nontrivial(bool(case["ins"]) and any(n[0] in "gx" for n in flat(base)))
    ctx.label("insertions %d" % min(len(case["ins"]), 6))
    for _, k, r in case["ins"]:
        ctx.label("kind " + k)


def strategy():
    x = st.tuples(st.just("x"), st.sampled_from(["list", "one"]), st.lists(st.sampled_from([["t", "a"], ["g", "p", True, [], [["t", "x"]]], ["g", "br", False, [], []], ["g", "span", False, [], []]]), max_size=3)).map(list)
    leaf = gen.weighted((8, LEAF.filter(lambda n: n[0] not in "md")), (1, x), (1, st.sampled_from([["g", "script", True, [], [["t", "a<b"]]], ["g", "script", True, [], []], ["g", "style", True, [], [["t", "x"], ["t", "y"]]]])))
    name = gen.weighted((6, NAME), (2, st.sampled_from(gen.VOID)), (1, st.sampled_from(["script", "style", "head", "html", "body"])))
    ins = st.tuples(st.integers(0, 400), st.sampled_from(sorted(METAS)), gen.weighted((6, st.just(1)), (2, st.integers(2, 3)), (1, gen.sizes(1, 30)))).map(list)
    return st.fixed_dictionaries({
        "nodes": gen.tree_nodes(leaf, name=name, attr=ATTR, max_leaves=10), "ins": gen.weighted((4, st.lists(ins, min_size=1, max_size=4)), (1, st.lists(ins, min_size=5, max_size=12))),
        "indent": gen.INDENT, "eol": gen.EOL_ANY, "path": st.lists(st.integers(0, 3), max_size=3)})


KINDS = [
    ["t", "a"], ["h", "<h/>"], ["r", "<r/>"], ["t", ""],
    ["g", "div", True, [], []], ["g", "p", True, [], [["t", "x"]]], ["g", "span", False, [], []], ["g", "b", False, [], [["t", "y"]]],
    ["g", "hr", True, [], []], ["g", "br", False, [], []], ["g", "ul", True, [], [["g", "li", False, [], []], ["t", "w"]]], ["g", "i", False, [], [["g", "div", True, [], []]]],
]
PARS = [None, ["div", True], ["span", False], ["br", True], ["img", False], ["script", True]]


def test_pattern(case, ctx):
    kids = [KINDS[i] for i in case["k"]]
    n = len(kids)
    par = case["p"]

    def wrap(k):
        x = k if par is None else [["g", par[0], par[1], [], k]]
        return [["t", "z"], *x, ["g", "em", False, [], []]] if case["w"] else x

    base = wrap(kids)
    m = 0
    for counts in itertools.product((0, 1, 2) if n < 2 else (0, 1), repeat=n + 1):
        if not any(counts):
            continue
        m += 1
        withm = []
        for i, c in enumerate(counts):
            kind = ["plain", "dep", "full", "repr", "hc", "falsy"][(i + m) % 6]
            withm += [["M", kind]] * c
            if i < n:
                withm.append(kids[i])
        withm = wrap(withm)
        for ind, eol in ((0, "\n"), (2, "|")):
            a, b = TagList(*[build_m(x) for x in base]), TagList(*[build_m(x) for x in withm])
            for aw in (True, False):
                expect_eq(b.get_html_string(ind, eol, add_ws=aw), a.get_html_string(ind, eol, add_ws=aw), "metadata changed the markup", tree=withm)
            if par is not None and not case["w"]:
                expect_eq(b[0].get_html_string(ind, eol), a[0].get_html_string(ind, eol), "metadata changed the markup of a tag", tree=withm)
        if m % 4 == 1:
            compare(base, withm, 1, "\n")
    ctx.count(m)
    ctx.nontrivial()


def patterns(tier):
    for n in range(0, 3 if tier == "quick" else 4):
        for k in itertools.product(range(len(KINDS)), repeat=n):
            for p in PARS:
                yield {"k": list(k), "p": p, "w": sum(k) % 2 == 1}


SIZE_LEAF = [["t", "l"], ["g", "i", False, [], []], ["g", "p", True, [], [["t", "e"]]], ["g", "br", True, [], []]]


def test_size(case, ctx):
    """Many siblings or levels; metadata at the ends, in the middle, and as many again everywhere."""
    base = sizes.nodes(case, SIZE_LEAF)
    n = case["n"]
    kinds = sorted(METAS)
    slots = sum(len(l) + 1 for l in kid_lists(base))
    compare(base, insert_all(base, [[w, kinds[(n + w) % len(kinds)], r] for w, r in ((0, 1), (n // 2, 2), (slots - 1, 1), (3 * n + 1, 1))]), n % 3, "\n")
    compare(base, insert_all(base, [[n * 7 + 1, kinds[n % len(kinds)], n]]), 0, "\n")
    ctx.nontrivial()


def test_names(case, ctx):
    """Every element with metadata first, in the middle, last, and as its only children."""
    for k, nodes in enumerate(itertools.chain(names.shapes(case["name"], case["i"]), names.pairs(case["name"], case["i"]))):
        slots = sum(len(l) + 1 for l in kid_lists(nodes))
        ins = [[(k + w) % slots, sorted(METAS)[(k + w) % len(METAS)], 1 + (k + w) % 2] for w in ([0, slots - 1, k] if k % 3 else range(slots))]
        withm = insert_all(nodes, ins)
        if k % 16 == 0:
            compare(nodes, withm, k % 3, "\n")
        else:
            a, b = TagList(*[build_m(x) for x in nodes]), TagList(*[build_m(x) for x in withm])
            expect_eq(b.get_html_string(k % 3, "\n"), a.get_html_string(k % 3, "\n"), "metadata changed the markup", tree=withm)
            if nodes[0][0] == "g":
                x, y = build_m(nodes[0]), next(build_m(z) for z in withm if z[0] == "g")
                expect_eq(y.get_html_string(), x.get_html_string(), "metadata changed the markup of a tag", tree=withm)
    ctx.nontrivial()


CHECKS = [
    Check("every element", test_names, cases=names.cases),
    Check("sizes", test_size, cases=lambda tier: sizes.cases(tier, wide=520, attrs=False)),
    Check("all positions", test_pattern, cases=patterns),
    Check("trees", test, strategy=strategy, quick=700, thorough=20000),
]
