"""C03 Attribute values are inert, single-line, and decode to the original."""
import itertools

from hypothesis import strategies as st

from htmltools import HTML, HTMLDocument, Tag, TagList, consolidate_attrs
from htmltools import tags as T
from vfw import gen, names
from vfw.build import attr_text, attr_value, build
from vfw.core import Check, fail
from vfw.gen import norm_name
from vfw.oracle import ATTR_SPECIAL, escaped_prefix

# ------------------------------------------------------------------- expectation
def match_tag(out, pos, name, attrs, msg):
    """The opening tag at out[pos:] must be exactly name + attrs ([(name, [(html?, text)])])."""
    def need(lit, what):
        nonlocal pos
        if not out.startswith(lit, pos):
            fail(f"{msg}: expected {lit!r} ({what}), found {out[pos:pos+40]!r}", output=out, attrs=attrs)
        pos += len(lit)

    need("<" + name, "tag")
    for a, segs in attrs:
        need(f' {a}="', f"attribute {a}")
        for i, (verb, s) in enumerate(segs):
            if i:
                need(" ", f"join in {a}")
            if verb:
                need(s, f"HTML() part of {a}")
            else:
                end, why = escaped_prefix(out, pos, s, ATTR_SPECIAL)
                if end is None:
                    fail(f"{msg}: attribute {a}: {why}", output=out, attrs=attrs)
                pos = end
        need('"', f"end of {a}")
    if out[pos : pos + 1] != ">" and out[pos : pos + 2] != "/>":
        fail(f"{msg}: opening tag does not end after its attributes: {out[pos:pos+40]!r}", output=out, attrs=attrs)


class Model:
    def __init__(self):
        self.d = {}

    def update(self, pairs):
        new = {}
        for a, v in pairs:
            t = attr_text(v)
            if t is not None:
                new.setdefault(norm_name(a), []).append((v[0] == "h", t))
        self.d.update(new)

    def add(self, name, v, prepend):
        old = self.d.get(name)
        seg = [(v[0] == "h", v[1])]
        self.d[name] = seg if old is None else (seg + old if prepend else old + seg)

    def items(self):
        return list(self.d.items())


def dicts_of(groups):
    return [{a: attr_value(v) for a, v in g} for g in groups]


def pairs_of(groups, kw):
    out = []
    for g in groups:
        out += list({a: v for a, v in g}.items())
    return out + list({a: v for a, v in kw}.items())


def test(case, ctx):
    name = case["name"]
    kids = [build(n) for n in case["kids"]]
    groups, kw = case["dicts"], {a: attr_value(v) for a, v in case["kw"]}
    m = Model()
    args = dicts_of(groups)
    pos = case["kidpos"] % (len(args) + 1)
    full = args[:pos] + kids + args[pos:]
    m.update(pairs_of(groups, case["kw"]))
    how = case["how"]
    if how == "tag":
        t = Tag(name, *full, _add_ws=case["ws"], **kw)
    elif how == "func":
        name = "a"
        t = T.a(*full, **kw)
    elif how == "consolidate":
        at, ch = consolidate_attrs(*full, **kw)
        t = Tag(name, at, *ch, _add_ws=case["ws"])
    elif how == "attrdict":
        at = Tag("b", *args, **kw).attrs
        t = Tag(name, at, *kids, _add_ws=case["ws"])
    else:  # later
        t = Tag(name, *kids, _add_ws=case["ws"])
        t.attrs.update(*args, **kw)
    for op in case["ops"]:
        k = op[0]
        if k == "update":
            t.attrs.update(*dicts_of(op[1]), **{a: attr_value(v) for a, v in op[2]})
            m.update(pairs_of(op[1], op[2]))
        elif k == "set":
            t.attrs[op[1]] = attr_value(op[2])
            m.update([[op[1], op[2]]])
        elif k == "class":
            t.add_class(attr_value(op[1]), prepend=op[2])
            m.add("class", op[1], op[2])
        elif k == "style":
            t.add_style(attr_value(op[1]), prepend=op[2])
            m.add("style", op[1], op[2])
    want = m.items()
    ind, eol = case["indent"], case["eol"]
    match_tag(t.get_html_string(ind, eol), 2 * ind, name, want, "get_html_string")
    match_tag(str(t), 0, name, want, "str")
    match_tag(t.render()["html"], 0, name, want, "render")
    tl = TagList("x", Tag("wrap-a", Tag("wrap-b", t, "k", _add_ws=False), _add_ws=case["ws"]))
    for lab, out in (("nested", tl.get_html_string(ind, eol)), ("nested render", tl.render()["html"]), ("document", HTMLDocument(tl).render()["html"])):
        i = out.find("<wrap-b>") + 8
        i = out.find("<" + name, i)
        if i < 0:
            fail(f"{lab}: element missing", output=out)
        match_tag(out, i, name, want, lab)
    # as attributes of the document
    d = HTMLDocument("x", **{a: attr_value(v) for a, v in case["kw"]}).render()["html"]
    m2 = Model()
    m2.update(pairs_of([], case["kw"]))
    match_tag(d, d.find("<html"), "html", m2.items(), "HTMLDocument(**attrs)")
    m3 = Model()
    m3.update(pairs_of(groups, []))
    m3.update(pairs_of([], case["kw"]))
    d = HTMLDocument(Tag("html", *args), **{a: attr_value(v) for a, v in case["kw"]}).render()["html"]
    match_tag(d, d.find("<html"), "html", m3.items(), "HTMLDocument(<html>, **attrs)")
    plain = [s for _, segs in want for h, s in segs if not h]
    ctx.nontrivial(any(c in s for s in plain for c in ATTR_SPECIAL))
    if any(len(segs) > 1 and len({h for h, _ in segs}) == 2 for _, segs in want):
        ctx.label("plain merged with HTML()")
    if case["ops"]:
        ctx.label("later ops")
    ctx.label("how " + how)


def strategy():
    hot = gen.HOT.map(lambda s: ["s", s])
    val = gen.weighted((4, hot), (3, gen.ATTRVAL), (3, st.one_of(gen.MARKUP, gen.HOT).map(lambda s: ["h", s])))
    nm = gen.weighted((2, gen.ATTRNAME), (3, st.sampled_from(["class", "class_", "style", "id", "title", "x_y", "x-y", "href"])))
    ident = st.sampled_from(["class_", "style", "id", "x_y", "title", "href", "data_a", "for_", "x"])
    pair = st.tuples(nm, val).map(list)
    group = gen.weighted((6, st.lists(pair, max_size=3)), (1, st.lists(pair, min_size=5, max_size=14)))
    kw = st.lists(st.tuples(ident, val).map(list), max_size=3)
    sv = gen.weighted((3, hot), (1, gen.TEXT.map(lambda s: ["s", s])), (2, st.one_of(gen.MARKUP, gen.HOT).map(lambda s: ["h", s])))
    op = st.one_of(
        st.tuples(st.just("update"), st.lists(group, max_size=2), kw).map(list),
        st.tuples(st.just("set"), nm, val).map(list),
        st.tuples(st.just("class"), sv, st.booleans()).map(list),
        st.tuples(st.just("style"), sv.map(lambda v: [v[0], v[1] + ";"]), st.booleans()).map(list),
    )
    return st.fixed_dictionaries({
        "name": gen.TAGNAME, "how": st.sampled_from(["tag", "tag", "func", "consolidate", "attrdict", "later"]), "ws": st.booleans(),
        "dicts": st.lists(group, max_size=3), "kw": kw, "ops": gen.weighted((2, st.just([])), (4, st.lists(op, max_size=4)), (1, st.lists(op, min_size=5, max_size=12))),
        "kids": st.lists(gen.weighted((2, gen.SHORT.map(lambda s: ["t", s])), (1, st.sampled_from([["N"], ["g", "br", True, [], []], ["m", 1], ["n", 3]]))), max_size=2),
        "kidpos": st.integers(0, 4), "indent": gen.INDENT, "eol": gen.EOL_WS,
    })


# ------------------------------------------------------------------- exhaustive
def paths(s):
    yield "keyword", Tag("a", x=s), [("x", [(False, s)])]
    yield "dict", Tag("br", {"p": "1", "x": s, "q": "2"}), [("p", [(False, "1")]), ("x", [(False, s)]), ("q", [(False, "2")])]
    yield "merged with plain", Tag("a", {"x": s}, "k", x="v"), [("x", [(False, s), (False, "v")])]
    yield "after HTML()", Tag("a", {"x": HTML("&h;<")}, {"x": s}), [("x", [(True, "&h;<"), (False, s)])]
    yield "before HTML()", Tag("a", {"x": s}, x=HTML("&h;<")), [("x", [(False, s), (True, "&h;<")])]
    yield "between HTML()", Tag("a", {"x": HTML("<")}, {"x": s}, x=HTML(">")), [("x", [(True, "<"), (False, s), (True, ">")])]
    yield "around HTML()", Tag("a", {"x": s}, {"x": HTML(">")}, x=s), [("x", [(False, s), (True, ">"), (False, s)])]
    t = Tag("a", y="1")
    t.attrs.update(x=s)
    yield "update", t, [("y", [(False, "1")]), ("x", [(False, s)])]
    t = Tag("a")
    t.attrs["x"] = s
    yield "assignment", t, [("x", [(False, s)])]
    yield "add_class", Tag("a", class_="c").add_class(s).add_class(s, prepend=True), [("class", [(False, s), (False, "c"), (False, s)])]
    yield "add_class on HTML()", Tag("a", class_=HTML("&c;")).add_class(s), [("class", [(True, "&c;"), (False, s)])]
    yield "add_style", Tag("a", style=s).add_style(s + ";").add_style(HTML("<;"), prepend=True), [("style", [(True, "<;"), (False, s), (False, s + ";")])]


def check_all(s):
    for d, t, want in paths(s):
        match_tag(t.get_html_string(), 0, t.name, want, d)


def test_block(case, ctx):
    cps = [c for c in range(case["from"], case["from"] + 256) if not 0xD800 <= c < 0xE000]
    n = 0
    for c in cps:
        ch = chr(c)
        if case["from"] < 0x400 or case["full"]:
            check_all(ch)
            n += 1
        elif c not in (13, 10):
            o = Tag("a", x=ch).get_html_string()
            if o != f'<a x="{ch}"></a>':
                fail("character changed", cp=hex(c), got=o)
            n += 1
    if cps:
        check_all("".join(map(chr, cps)))
    ctx.count(n)
    ctx.nontrivial(bool(cps))


def blocks(tier):
    for a in range(0, 0x110000, 256):
        yield {"from": a, "full": tier == "thorough"}


ALPHA = "&<>\"'\r\n;#a =/"


def test_short(case, ctx):
    n = 0
    for k in range(case["more"] + 1):
        for t in itertools.product(ALPHA, repeat=k):
            check_all(case["prefix"] + "".join(t))
            n += 1
    ctx.count(n)
    ctx.nontrivial()


def short(tier):
    yield {"prefix": "", "more": 1}
    for a in itertools.product(ALPHA, repeat=2):
        yield {"prefix": "".join(a), "more": 1 if tier == "quick" else 2}


def test_s(case, ctx):
    check_all(case["s"])
    ctx.nontrivial(any(c in case["s"] for c in ATTR_SPECIAL))


def strings(tier):
    for e in gen.HOSTILE + gen.DS:
        for t in ("{}", "{}{}", "x{}", "{}x", " {} ", '"{}"', "&{};", "{}\r\n{}"):
            yield {"s": t.replace("{}", e)}
    for ch in "\"'\r\n&<>a é":
        for n in list(range(0, 40)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 4096, 4097, 10000, 65537]:
            yield {"s": ch * n}
            yield {"s": "a" * n + ch}
            yield {"s": ch + "a" * n + ch + "b" + ch}


NUMS = [0, 1, -1, 10**20, 0.5, -0.0, 1e22, 1e-9, float("inf"), float("-inf"), 3.0, True, False, None]


def test_nums(case, ctx):
    v = NUMS[case["i"]]
    for name in gen.HTML_NAMES + ["my-x"]:
        w = [] if v is None or v is False else [("x", [(False, "" if v is True else str(v))])]
        match_tag(Tag(name, x=v).get_html_string(), 0, name, w, "keyword")
        match_tag(Tag(name, {"x_": v}).get_html_string(), 0, name, w, "dict")
        t = Tag(name)
        t.attrs["x"] = v
        match_tag(t.get_html_string(), 0, name, w, "assignment")
        t = Tag(name)
        t.attrs.update({"x": v})
        match_tag(t.get_html_string(), 0, name, w, "update")
    ctx.count(400)
    ctx.nontrivial()


NAMEVALS = ["v", "", " v  w ", "a<b>&\"'\r\n", "&amp;", "true", "a&b=c#d", "javascript:x", "v\nw", "{'a': \"b\"}", "<p>", "VALUE", "http://x.y/z?a=1&b=2 3", "a;b:c", "a,b", "é", "#", "%20", "\t"]


def test_names(case, ctx):
    """Every attribute name on every element."""
    name, i = case["name"], case["i"]
    for k, a in enumerate(names.ATTRS):
        for j in range(1 if name in ("tr", "x") else 2):
            v = NAMEVALS[(k + i + j * 7) % len(NAMEVALS)]
            b = names.ATTRS[(k * 3 + i + j) % len(names.ATTRS)]
            m = Model()
            m.update([[a, ["s", v]], [b, [["v", True], ["v", 1.5], ["h", "<h>"], ["s", v], ["v", False]][(k + j) % 5]]])
            kids = ["t"] if k % 2 else []
            t = Tag(name, {a: v}, *kids, {b: [True, 1.5, HTML("<h>"), v, False][(k + j) % 5]}, _add_ws=k % 3 == 0)
            match_tag(str(t), 0, name, m.items(), "str")
            t2 = Tag(name, *kids)
            t2.attrs[a] = v
            m2 = Model()
            m2.update([[a, ["s", v]]])
            out = str(TagList("x", t2)) if k % 4 == 0 else t2.get_html_string()
            match_tag(out, out.index("<" + name), name, m2.items(), "assigned")
    ctx.nontrivial()


CHECKS = [
    Check("every element and attribute", test_names, cases=names.cases),
    Check("numbers and booleans", test_nums, cases=lambda tier: [{"i": i} for i in range(len(NUMS))]),
    Check("strings", test_s, cases=strings),
    Check("short strings", test_short, cases=short),
    Check("code points", test_block, cases=blocks),
    Check("supply programs", test, strategy=strategy, quick=1200, thorough=40000),
]
