"""C10 Dependencies are validated, then resolve one per name to the highest version."""
import copy
import itertools
import types

from hypothesis import strategies as st

from htmltools import HTMLDependency, HTMLDocument, HTMLTextDocument, Tag, TagList
from packaging.version import Version

from vfw import gen, names, sizes, nest
from vfw.build import Expander, attr_value, build, flat
from vfw.core import Check, expect, expect_eq, fail
from vfw.deps import plain, snap
from vfw.oracle import resolve, version_key

# ["d", {"name":..., "version":..., "id": n}]


# what else a dependency holds has no part in which one is chosen
S = {"src": "a.js"}
META = [[], [{"name": "viewport", "content": "x", "http-equiv": "y"}], []]
RICH = [{}, {"script": S}, {"script": [S, {"src": "b.js", "async": "", "integrity": "q"}], "source": {"href": "http://x/"}}, {"stylesheet": [{"href": "a.css"}, {"href": "b.css", "media": "print"}], "source": {"subdir": "s"}},
        {"all_files": True, "source": {"subdir": "s"}}, {"head": "<x>"}, {"head": ["a", Tag("b", "c")]}, {"source": {"href": ""}}, {"source": {"package": None, "subdir": "z"}, "script": [S], "stylesheet": {"href": "q.css"}, "head": Tag("title", "t")},
        {}, {"source": {"package": "htmltools", "subdir": "lib"}, "script": S}, {"script": [S, S], "all_files": True, "source": {"href": "u"}}]


def mkdep(d, as_version=False):
    i = d["id"]
    v = Version(d["version"]) if as_version else d["version"]
    return HTMLDependency(d["name"], v, meta=[{"name": "id", "content": str(d["id"])}] + copy.deepcopy(META[i % 3]), **copy.deepcopy(RICH[i * 7 % len(RICH)]))


def ident(d):
    return (d.name, str(d.version), d.meta[0]["content"])


def want_ident(d):
    return (d["name"], str(Version(d["version"])), str(d["id"]))


def mk(n, reg):
    """Builds n; reg maps dependency id -> object."""
    k = n[0]
    if k == "d":
        i = n[1]["id"]
        if i not in reg:
            reg[i] = mkdep(n[1], i % 3 == 0)
        return reg[i]
    if k == "g":
        return Tag(n[1], *[{a: attr_value(v)} for a, v in n[3]], *[mk(c, reg) for c in n[4]], _add_ws=n[2])
    if k == "L":
        return [mk(c, reg) for c in n[1]]
    if k == "U":
        return tuple(mk(c, reg) for c in n[1])
    if k == "T":
        return TagList(*[mk(c, reg) for c in n[1]])
    return build(n)


def deps_in(nodes):
    out = []
    for n in nodes:
        if n[0] == "d":
            out.append(n[1])
        elif n[0] == "g":
            out += deps_in(n[4])
        elif n[0] in "LUT":
            out += deps_in(n[1])
    return out


def number(nodes, c=None):
    """Gives every dependency its own identity (objects may be shared: the same id twice)."""
    c = c if c is not None else itertools.count()
    out = []
    for n in nodes:
        if n[0] == "d":
            out.append(["d", {**n[1], "id": next(c)}])
        elif n[0] == "g":
            out.append(["g", n[1], n[2], n[3], number(n[4], c)])
        elif n[0] in "LUT":
            out.append([n[0], number(n[1], c)])
        else:
            out.append(n)
    return out


def check_reported(obj, seq, reg, lab, document=True):
    want = resolve(seq)
    got = obj.get_dependencies()
    expect_eq([ident(d) for d in got], [want_ident(d) for d in want], f"{lab}.get_dependencies()", given=seq)
    expect(all(g is reg[w["id"]] for g, w in zip(got, want)), f"{lab}.get_dependencies() does not hand out the objects in the tree")
    raw = obj.get_dependencies(dedup=False)
    expect_eq([ident(d) for d in raw], [want_ident(d) for d in seq], f"{lab}.get_dependencies(dedup=False) drops or reorders", given=seq)
    expect(isinstance(got, list) and isinstance(raw, list), "not a list")
    expect_eq([ident(d) for d in obj.get_dependencies(dedup=True)], [want_ident(d) for d in want], "dedup=True")
    expect_eq([ident(d) for d in obj.render()["dependencies"]], [want_ident(d) for d in want], f"{lab}.render()", given=seq)
    # idempotent
    again = TagList(*got).get_dependencies()
    expect(len(again) == len(got) and all(a is b for a, b in zip(again, got)), f"resolving the resolved list changes it ({lab})")
    if document:
        expect_eq([ident(d) for d in HTMLDocument(obj).render()["dependencies"]], [want_ident(d) for d in want], f"HTMLDocument({lab}).render()", given=seq)


def test_tree(case, ctx):
    nodes = number(case["nodes"])
    seq = deps_in(nodes)
    reg = {}
    objs = [mk(n, reg) for n in nodes]
    x = TagList(*objs)
    check_reported(x, seq, reg, "list")
    wrapped = Tag(case["wrap"][0], x, _add_ws=case["wrap"][1])
    check_reported(wrapped, seq, reg, "tag")
    # where the objects sit does not matter
    flatl = TagList(*[reg[d["id"]] for d in seq])
    check_reported(flatl, seq, reg, "flat list", False)
    deep = None
    for d in reversed(seq[:30]):
        deep = Tag("div", reg[d["id"]], "t", deep)
    if deep is not None:
        check_reported(deep, seq[:30], reg, "nested chain", False)
    html = Tag("html", Tag("head", *[reg[d["id"]] for d in seq[: len(seq) // 2]]), Tag("body", [Tag("p", reg[d["id"]]) for d in seq[len(seq) // 2 :]]))
    check_reported(html, seq, reg, "html")
    # through tagifiable objects (which hand out their own copies)
    ex = TagList(*[Expander("list", [["t", "e"]]) if n[0] != "d" else n for n in []])
    for i, d in enumerate(seq):
        ex.append(Carrier([d]) if i % 2 else Tag("i", Carrier([d, d])))
    seq2 = [d for i, d in enumerate(seq) for d in ([d] if i % 2 else [d, d])]
    expect_eq([ident(d) for d in ex.render()["dependencies"]], [want_ident(d) for d in resolve(seq2)], "dependencies of expansions")
    expect_eq([ident(d) for d in ex.tagify().get_dependencies(dedup=False)], [want_ident(d) for d in seq2], "dependencies of expansions (dedup=False)")
    # text documents keep the given list
    td = HTMLTextDocument("x", deps=[reg[d["id"]] for d in seq], deps_replace_pattern="x").render()["dependencies"]
    expect_eq([ident(d) for d in td], [want_ident(d) for d in seq], "HTMLTextDocument dependencies")
    names = [d["name"] for d in seq]
    ctx.nontrivial(len(set(names)) < len(names))
    ctx.label("%s dependencies" % (len(seq) if len(seq) < 6 else "6+"))
    r = resolve(seq)
    for n in set(names):
        vs = [d["version"] for d in seq if d["name"] == n]
        if len(vs) > 1:
            ks = [version_key(v) for v in vs]
            if max(ks) != ks[0]:
                ctx.label("later version wins")
            if ks.count(max(ks)) > 1:
                ctx.label("tie for the highest")
            if len({tuple(str(k)) for k in ks}) > 1 and max(vs) != vs[ks.index(max(ks))]:
                ctx.label("lexical order differs")
            if names.index(n) != 0 and r[0]["name"] != n:
                ctx.label("not first name")


class Carrier:
    def __init__(self, ds):
        self.ds = ds

    def tagify(self):
        nest.work()
        return TagList(*[mkdep(d) for d in self.ds])


NUMS = st.sampled_from([0, 1, 2, 9, 10, 11, 19, 99, 100, 1000, 20210101])
RELEASE = st.lists(NUMS, min_size=1, max_size=4).map(lambda l: ".".join(map(str, l)))


@st.composite
def close_versions(draw):
    """A few versions that are near each other."""
    base = draw(RELEASE)
    parts = base.split(".")
    opts = [base, base + ".0", base + ".0.0", base + ".1", base + ".10", base + ".9", base + "a1", base + "b1", base + "rc1", base + "rc10", base + "rc9", base + ".post1", base + ".dev1", base + "+local", "1!" + base,
            ".".join(parts[:-1] + [str(int(parts[-1]) + 1)]), ".".join(parts[:-1] + [str(int(parts[-1]) * 10)]), ".".join([str(int(parts[0]) + 1)] + parts[1:]), "v" + base, base + "-2", base + "a", "0" + base if parts[0] != "0" else base]
    return draw(st.lists(st.sampled_from(opts), min_size=1, max_size=5))


@st.composite
def dep_pool(draw):
    names = draw(st.lists(st.sampled_from(["a", "b", "c", "A", "a-1", "jquery", "z", "a.b", "é", ""]), min_size=1, max_size=4, unique=True))
    vers = {n: draw(st.one_of(close_versions(), st.lists(gen.VERSION, min_size=1, max_size=4))) for n in names}
    return [{"name": n, "version": v} for n in names for v in vers[n]]


@st.composite
def strat_tree(draw):
    pool = draw(dep_pool())
    leaf = gen.weighted((6, st.sampled_from(pool).map(lambda d: ["d", d])), (1, st.sampled_from([["t", "x"], ["m", 1], ["N"], ["r", "q"]])))
    if draw(st.integers(0, 3)) == 0:
        n = draw(gen.sizes(1, 40))
        nodes = [draw(leaf) for _ in range(n)]
    else:
        name = gen.weighted((4, st.sampled_from(["div", "span", "p", "br", "script", "b"])), (1, st.sampled_from(["html", "head", "body", "style", "img"])))
        nodes = draw(gen.tree_nodes(leaf, name=name, attr=st.just([]), max_leaves=16))
    return {"nodes": nodes, "wrap": [draw(st.sampled_from(["div", "html", "body", "br", "script"])), draw(st.booleans())]}


# -------------------------------------------------------- dependencies inside the head of others
def nested_seq(nodes):
    out = []
    for n in nodes:
        if n[0] == "d":
            out.append(n[1])
            out += nested_seq(n[2])
        elif n[0] == "g":
            out += nested_seq(n[4])
    return out


def test_heads(case, ctx):
    """A dependency's head is a nesting level like any other."""
    c = itertools.count()

    def num(nodes):
        return [["d", {**n[1], "id": next(c)}, num(n[2])] if n[0] == "d" else ["g", n[1], n[2], n[3], num(n[4])] if n[0] == "g" else n for n in nodes]

    nodes, reg = num(case["nodes"]), {}

    def go(n):
        if n[0] == "d":
            kids = [go(k) for k in n[2]]
            v = n[1]
            reg[v["id"]] = HTMLDependency(v["name"], v["version"], meta={"name": "id", "content": str(v["id"])}, head=(TagList(*kids) if v["id"] % 2 else kids) if kids else None)
            return reg[v["id"]]
        if n[0] == "g":
            return Tag(n[1], *[go(k) for k in n[4]], _add_ws=n[2])
        return build(n)

    x = TagList(*[go(n) for n in nodes])
    seq = nested_seq(nodes)
    for lab, o in (("list", x), ("tag", Tag("div", x)), ("tagified", x.tagify())):
        raw = o.get_dependencies(dedup=False)
        expect_eq([ident(d) for d in raw], [want_ident(d) for d in seq], f"{lab}: get_dependencies(dedup=False) drops or reorders", tree=nodes)
        expect_eq([ident(d) for d in o.get_dependencies()], [want_ident(d) for d in resolve(seq)], f"{lab}: get_dependencies()", tree=nodes)
        expect_eq([ident(d) for d in o.render()["dependencies"]], [want_ident(d) for d in resolve(seq)], f"{lab}: render()", tree=nodes)
        expect_eq([ident(d) for d in HTMLDocument(o).render()["dependencies"]], [want_ident(d) for d in resolve(seq)], f"{lab}: HTMLDocument", tree=nodes)
    names = [d["name"] for d in seq]
    ctx.nontrivial(len(set(names)) < len(names) and any(n[0] == "d" and nested_seq(n[2]) for n in nodes))
    ctx.label("dependencies in heads: %d" % min(6, len(seq) - len([n for n in nodes if n[0] == "d"])))


@st.composite
def strat_heads(draw):
    pool = draw(dep_pool())

    def node(depth):
        k = draw(st.integers(0, 9))
        if k < 6:
            d = draw(st.sampled_from(pool))
            return ["d", d, [node(depth - 1) for _ in range(draw(st.integers(0, 3)))] if depth > 0 and draw(st.booleans()) else []]
        if k < 8 and depth > 0:
            return ["g", draw(st.sampled_from(["div", "span", "b", "title"])), draw(st.booleans()), [], [node(depth - 1) for _ in range(draw(st.integers(0, 3)))]]
        return draw(st.sampled_from([["t", "x"], ["m", 1], ["h", "<link/>"]]))

    return {"nodes": [node(3) for _ in range(draw(st.integers(1, 4)))]}


# every sequence of up to n dependencies from a small alphabet
ALPHA = [{"name": n, "version": v} for n, vs in (("a", ["1.9", "1.10", "1.10.0"]), ("b", ["2", "1"])) for v in vs]


def test_seq(case, ctx):
    seq = [{**ALPHA[i], "id": k} for k, i in enumerate(case["s"])]
    reg = {d["id"]: mkdep(d) for d in seq}
    objs = [reg[d["id"]] for d in seq]
    h = len(objs) // 2
    shapes = [TagList(*objs), Tag("div", *objs), TagList(*objs[:h], Tag("p", *objs[h:])), TagList(Tag("p", *objs[:h]), *objs[h:]), TagList(*[Tag("b", o) for o in objs])]
    for x in shapes:
        check_reported(x, seq, reg, "tree", False)
    ctx.count(len(shapes) - 1)
    ctx.nontrivial(len(seq) > 1)


def seqs(tier):
    for n in range(0, 5 if tier == "quick" else 7):
        for s in itertools.product(range(len(ALPHA)), repeat=n):
            yield {"s": list(s)}


# ------------------------------------------------------------------------- validation
GOOD = {"script": {"src": "a.js"}, "stylesheet": {"href": "a.css"}, "meta": {"name": "n", "content": "c"}}
REQ = {"script": ["src"], "stylesheet": ["href"], "meta": ["name", "content"]}
BADVAL = {
    "str": "a.js", "empty str": "", "int": 1, "zero": 0, "true": True, "false": False, "float": 1.5, "bytes": b"x", "empty bytes": b"", "object": object(), "tag": Tag("script", src="a.js"), "taglist": TagList("x"),
    "pairs": [("src", "a.js")], "nested list": [[{"src": "a.js"}]], "str in list": ["a.js"], "empty str in list": [""], "none in list": [None], "int in list": [0],
    "tag in list": [Tag("script", src="a.js")], "list in list": [[]], "tuple in list": [()], "set in list": [{"src"}],
    "proxy": [types.MappingProxyType({"src": "a.js", "href": "a.css", "name": "n", "content": "c"})], "dict subclass instance without keys": [type("D", (dict,), {})()],
}
BADSRC = {
    "str": "lib", "empty str": "", "int": 1, "zero": 0, "false": False, "true": True, "list": ["href"], "empty list": [], "tuple": ("subdir", "x"), "empty tuple": (), "set": {"href"}, "pairs": [("href", "x")], "bytes": b"x",
    "object": object(), "proxy": types.MappingProxyType({"href": "x"}), "empty dict": {}, "only package": {"package": "p"}, "Href": {"Href": "x"}, "subdirs": {"subdirs": "x"}, "src": {"src": "x"}, "none key": {None: "href"},
    "value is href": {"package": "href"}, "path": __import__("pathlib").Path("x"),
}


def must_reject(kw, msg):
    try:
        d = HTMLDependency("n", "1.0", **kw)
    except Exception:
        return
    fail(msg + " accepted", arguments=repr(kw), result=repr(vars(d)))


def test_reject(case, ctx):
    k = case["kind"]
    ctx.nontrivial()
    if k == "source":
        must_reject({"source": BADSRC[case["bad"]]}, "source " + case["bad"])
        must_reject({"source": BADSRC[case["bad"]], "script": {"src": "a.js"}, "all_files": True, "head": "x"}, "source " + case["bad"])
        return
    f = case["field"]
    if k == "value":
        must_reject({f: BADVAL[case["bad"]]}, f"{f} {case['bad']}")
        must_reject({f: BADVAL[case["bad"]], "source": {"href": "x"}, **({"meta": GOOD["meta"]} if f != "meta" else {})}, f"{f} {case['bad']}")
    else:
        # an otherwise good list with one bad item at a position
        bad = case["item"]
        lst = [dict(GOOD[f]) for _ in range(case["n"])]
        lst.insert(case["pos"], bad)
        must_reject({f: lst}, f"{f} item without its required key at position {case['pos']} of {case['n'] + 1}")
        if case["n"] == 0 and isinstance(bad, dict):
            must_reject({f: bad}, f"single {f} item without its required key")


def rejects(tier):
    for b in BADSRC:
        yield {"kind": "source", "bad": b}
    for f in GOOD:
        for b in BADVAL:
            yield {"kind": "value", "field": f, "bad": b}
        bads = [{}, {k.upper(): "x" for k in REQ[f]}, {k + " ": "x" for k in REQ[f]}, {"data-" + k: "x" for k in REQ[f]}, "x", "", 0, None, [], list(GOOD[f].items())]
        bads += [{k: v for k, v in GOOD[f].items() if k != r} for r in REQ[f]]
        bads += [{"href": "x"}] if f == "script" else [{"src": "x"}]
        bads += [{"rel": "stylesheet"}, {"type": "x"}] if f != "meta" else [{"charset": "x"}]
        for b in bads:
            for n in range(4):
                for pos in range(n + 1):
                    yield {"kind": "item", "field": f, "item": b, "n": n, "pos": pos}


def test_random_def(case, ctx):
    """Random definitions: accepted exactly when they meet the rules; single item == one-item list."""
    def ok_items(f, v):
        if v is None:
            return True
        items = [v] if isinstance(v, dict) else v
        return isinstance(items, list) and all(isinstance(i, dict) and all(r in i for r in REQ[f]) for i in items)

    import copy

    src = case.get("source")
    good = (src is None or (isinstance(src, dict) and ("href" in src or "subdir" in src))) and all(ok_items(f, case.get(f)) for f in GOOD)
    kw = {k: case[k] for k in ("source", "script", "stylesheet", "meta", "all_files", "head") if k in case}
    try:
        d = HTMLDependency("n", "1.0", **copy.deepcopy(kw))
    except Exception as e:
        expect(not good, f"a valid definition was rejected: {type(e).__name__}: {e}", arguments=kw)
        ctx.label("rejected")
        ctx.nontrivial()
        return
    expect(good, "an invalid definition was accepted", arguments=kw)
    ctx.label("accepted")
    ctx.nontrivial(any(case.get(f) for f in GOOD))
    # single item or list: identical results
    kw2 = {k: ([v] if isinstance(v, dict) else v[0] if isinstance(v, list) and len(v) == 1 else v if v is not None else []) if k in GOOD else v for k, v in kw.items()}
    kw2 = copy.deepcopy(kw2)
    for f in GOOD:
        if case.get(f) is None:
            kw2[f] = []
    e = HTMLDependency("n", "1.0", **kw2)
    expect(d == e and e == d, "single item and one-item list give different dependencies", one=repr(vars(d)), other=repr(vars(e)))
    expect_eq(snap(d), snap(e), "single item and one-item list")
    if not (isinstance(src, dict) and not isinstance(src.get("href", src.get("subdir")), str)):
        for a in ({}, {"lib_prefix": None}, {"include_version": False}):
            expect_eq(plain(d.as_dict(**a)), plain(e.as_dict(**a)), "as_dict")
            expect_eq(str(d.as_html_tags(**a)), str(e.as_html_tags(**a)), "as_html_tags")
        expect_eq(str(d.serialize_to_script_json()), str(e.serialize_to_script_json()), "serialisation")
        expect_eq(HTMLDocument(d).render()["html"], HTMLDocument(e).render()["html"], "document")


def strat_def():
    def items(f):
        keys = st.sampled_from(REQ[f] + ["type", "rel", "data-a", REQ[f][0].upper()])
        partial = st.dictionaries(keys, gen.SHORT, max_size=3)
        full = partial.map(lambda d: {**{r: "v" for r in REQ[f]}, **d})
        item = gen.weighted((12, full), (1, partial), (1, st.sampled_from(["x", "", None, 3, []])))
        return st.one_of(st.none(), item.filter(lambda x: x is not None and x != "" or True), st.lists(item, max_size=4))

    src = gen.weighted((4, st.sampled_from([None, {"href": "u"}, {"subdir": "s"}, {"package": None, "subdir": "s"}, {"href": "u", "x": 1}])), (1, st.dictionaries(st.sampled_from(["href", "subdir", "package", "x"]), st.sampled_from(["u", "s"]), max_size=2)), (1, st.sampled_from(["x", [], 1])))
    return st.fixed_dictionaries({}, optional={"source": src.map(lambda s: {k: v for k, v in s.items() if k != "package"} if isinstance(s, dict) and s.get("package") else s), "script": items("script"), "stylesheet": items("stylesheet"), "meta": items("meta"), "all_files": st.booleans(), "head": st.sampled_from([None, "<b>"])})


def test_size(case, ctx):
    """Many names, many versions, many levels."""
    n, k = case["n"], case["k"]
    # names in an order that is neither sorted nor reversed
    seq = [{"name": f"n{(i * 7919) % max(1, n // k)}", "version": f"1.{(i * 31) % 97}" if i % 3 else str(i % 5), "id": i} for i in range(n)]
    reg = {d["id"]: mkdep(d, d["id"] % 3 == 0) for d in seq}
    objs = [reg[d["id"]] for d in seq]
    if case["shape"] == "flat":
        x = TagList(*objs)
    elif case["shape"] == "tags":
        x = Tag("ul", [Tag("li", "t", o) for o in objs])
    elif case["shape"] == "padded":
        x = TagList([Tag("p", "x") for _ in range(n)], objs, "end")
    else:
        x = None
        for o in reversed(objs):
            x = Tag("div", o, "t", x)
    check_reported(x, seq, reg, case["shape"])
    ctx.nontrivial(n > 1)


def size_cases(tier):
    for n in sizes.counts(6, 600, tier):
        for k in (1, 3):
            for shape in ("flat", "tags", "padded", "deep"):
                if shape != "deep" or n <= 110:
                    yield {"n": n, "k": k, "shape": shape}


def test_names(case, ctx):
    """Dependencies inside, below and beside every element."""
    nm, i = case["name"], case["i"]
    G = lambda n, k, ws=True, at=(): ["g", n, ws, [list(a) for a in at], k]
    D = lambda n, v: ["d", {"name": n, "version": v, "source": {"href": "u" + v}, "script": [{"src": "s.js"}]}]
    a, b, a2 = D("a", "1.9"), D("b", "1"), D("a", "1.10")
    for j, m in enumerate(names.NAMES):
        if (i + j) % 4 and m not in ("html", "head", "body", "script", "template", "title"):
            continue
        at = names.attr(i + j * 5) if j % 2 else []
        for k, nodes in enumerate(([G(nm, [a, b, a2], True, at)], [b, G(nm, [G(m, [a]), a2, ["t", "x"]], False), G(m, [b], True, at)], [G("div", [G(nm, [G(m, [a, ["t", "t"]], False)]), a2]), b])):
            if (i + j + k) % 3 == 0 or m == nm:
                test_tree({"nodes": nodes, "wrap": [nm, j % 2 == 0]}, ctx)
    ctx.nontrivial()


CHECKS = [
    Check("every element", test_names, cases=names.cases),
    Check("sizes", test_size, cases=size_cases),
    Check("rejected definitions", test_reject, cases=rejects, max_shards=2),
    Check("definitions", test_random_def, strategy=strat_def, quick=500, thorough=10000),
    Check("sequences", test_seq, cases=seqs),
    Check("inside heads", test_heads, strategy=strat_heads, quick=250, thorough=6000),
    Check("trees", test_tree, strategy=strat_tree, quick=700, thorough=20000),
]
