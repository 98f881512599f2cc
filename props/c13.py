"""C13 Serialised dependencies round-trip through HTML text."""
import copy
import json
import re

from hypothesis import strategies as st

import htmltools
from htmltools import HTML, HTMLDependency, HTMLDocument, HTMLTextDocument, Tag, TagList
from packaging.version import Version

from vfw import gen, names
from vfw.build import build, dep as build_dep
from vfw.core import Check, expect, expect_eq, fail
from vfw.deps import dep_spec, snap

from . import c11

START = '<script type="application/json" data-html-dependency="">'
PH = "\u2780PLACE\u2781"


def parts(d):
    """Everything but the head, by value and type."""
    s = snap(d)
    return s[2:9]


def head_markup(d):
    return None if d.head is None else d.head.get_html_string()


def recovered(text, deps=None, pattern=None):
    doc = HTMLTextDocument(text, deps=deps if deps is not None else [], deps_replace_pattern=pattern or "\u2780NEVER\u2781")
    r = doc.render()
    return doc, r["html"], r["dependencies"]


def settings(prefix, ver):
    """Keyword arguments; the documented defaults are left out."""
    return {} if (prefix, ver) == ("lib", True) else dict(lib_prefix=prefix, include_version=ver)


def serial(d, indent, how):
    t = d.serialize_to_script_json(indent=indent) if indent is not None or how % 2 else d.serialize_to_script_json()
    return [str(t), t.get_html_string(), TagList(t).get_html_string(), t.render()["html"]][how % 4]


def check_element(s):
    expect(s.startswith("<script") and s.endswith("</script>"), "not one script element", serialised=s)
    body = s[s.index(">") + 1 : -len("</script>")]
    m = re.search(r"</script", body, re.I)
    if m:
        fail(f"an end tag {body[m.start():m.start()+10]!r} inside the serialised element", serialised=s)


def check_same(got, orig, msg):
    expect_eq(parts(got), parts(orig), msg)
    expect(type(got) is HTMLDependency, "not an HTMLDependency")
    expect_eq(head_markup(got), head_markup(orig), msg + ": head markup")
    if orig.head is None or (len(orig.head) == 1 and isinstance(orig.head[0], HTML)):
        expect(got == orig and orig == got, msg + ": recovered dependency != original", got=repr(vars(got)), want=repr(vars(orig)))


def test_roundtrip(case, ctx):
    deps = [build_dep(d) for d in case["deps"]]
    before = [snap(d) for d in deps]
    segs, order, text, clean = case["text"], [], "", ""
    sers = []
    for i, (which, indent, how) in enumerate(case["seq"]):
        pre = segs[i % len(segs)] if segs else ""
        d = deps[which % len(deps)]
        s = serial(d, indent, how)
        check_element(s)
        text += pre + s
        clean += pre
        if s not in sers:
            sers.append(s)
            order.append(d)
    tail = segs[-1] if segs else ""
    text, clean = text + tail, clean + tail
    if START in clean or PH in text:
        return
    given = [build_dep(d) for d in case["given"]]
    gl = list(given)
    doc, out, got = recovered(text, gl)
    expect_eq(out, clean, "the text without the serialised scripts", text=text)
    expect_eq(len(got), len(given) + len(order), "number of recovered dependencies (one per distinct serialisation)", names=[d.name for d in got], want_names=[d.name for d in given + order])
    for g, w in zip(got, given + order):
        check_same(g, w, "recovered dependency")
    for g, w in zip(got[len(given):], sers):
        pass
    # serialising what was recovered gives the same text
    for g, w in zip(got[len(given):], order):
        expect_eq(str(g.serialize_to_script_json()), str(w.serialize_to_script_json()), "serialisation of the recovered dependency")
    expect_eq([snap(d) for d in deps], before, "the dependencies were changed")
    expect(len(gl) == len(given), "the caller's list of dependencies was changed")
    # nothing left to find
    _, out2, got2 = recovered(out)
    expect(out2 == out and got2 == [], "extraction of the cleaned text finds something again")
    ctx.nontrivial(bool(case["seq"]) and any(c in json.dumps(case["deps"]) for c in "<\\"))
    ctx.label("%d scripts" % min(6, len(case["seq"])))
    if len(sers) < len(case["seq"]):
        ctx.label("repeated serialisation")
    if re.search("</script", json.dumps(case["deps"]), re.I):
        ctx.label("contains an end tag")
    if given:
        ctx.label("with deps=")


ENDTAGS = st.sampled_from(["</script>", "</SCRIPT>", "</Script >", "</sCrIpT\n>", "</script/", "</scripT", "<\\/script>", "</script\t", "<!--", "-->", "<!-- <script>", "]]>", "\\", '\\"', '"', "\\u003c/script>", "</scripts>", "< /script>", "</ſcript>", "</scrİpt>", "<script>", START, "{", "}", "null",
                           "\n", "\r\n", "\u2028", "\x00", "\x7f", "é", "😀", "</style>", "/", "\\/", "<", "</", "</s", "'", "&lt;/script&gt;", "&"])
FIELD = gen.weighted((2, gen.SHORT), (4, st.lists(st.one_of(ENDTAGS, gen.PIECE), min_size=1, max_size=4).map("".join)), (1, gen.TEXT))


def depspec(text=FIELD, weird_keys=True):
    keyed = st.dictionaries(text.filter(lambda k: k not in gen.RESERVED) if weird_keys else st.sampled_from(["data-a", "media", "async"]), text, max_size=2)
    sub = text.map(lambda s: s.replace("\x00", "\x01"))  # a path holds no NUL
    src = gen.weighted((2, st.none()), (2, text.map(lambda s: {"href": s})), (2, sub.map(lambda s: {"subdir": s})), (1, st.tuples(st.sampled_from(["htmltools", "json", "email"]), sub).map(lambda t: {"package": t[0], "subdir": t[1]})), (1, sub.map(lambda s: {"package": None, "subdir": s})))

    def items(req):
        return st.one_of(st.none(), st.lists(st.tuples(st.tuples(*[text] * len(req)), keyed).map(lambda t: {**t[1], **dict(zip(req, t[0]))}), max_size=3), st.tuples(st.tuples(*[text] * len(req)), keyed).map(lambda t: {**dict(zip(req, t[0])), **t[1], **dict(zip(req, t[0]))}))

    node = st.one_of(text.map(lambda s: ["t", s]), text.map(lambda s: ["h", s]), text.map(lambda s: ["g", "script", True, [], [["t", s]]]), text.map(lambda s: ["g", "div", True, [["title", ["s", s]]], [["t", s], ["g", "b", False, [], []]]]), st.sampled_from([["g", "title", False, [], []], ["m", 0], ["g", "div", True, [], [["m", 1], ["t", "x"]]], ["N"], ["g", "p", True, [], [["t", "a"], ["g", "i", False, [], []], ["g", "ul", True, [], [["t", "<"]]], ["r", "<r/>"], ["t", "b"]]]]))
    head = st.one_of(st.none(), text, st.lists(node, max_size=3))

    @st.composite
    def s(draw):
        d = {"name": draw(text), "version": draw(gen.VERSION)}
        for k, g in (("source", src), ("script", items(["src"])), ("stylesheet", items(["href"])), ("meta", items(["name", "content"])), ("head", head)):
            if draw(st.integers(0, 2)):
                v = draw(g)
                if v is not None:
                    d[k] = v
        if draw(st.booleans()):
            d["all_files"] = draw(st.booleans())
        return d

    return s()


SURR = gen.weighted((4, st.sampled_from(["", "\n", "<p>x</p>\n", "<!DOCTYPE html>\n<html><head></head><body>", "</body></html>", '<script type="application/json">{"a":1}</script>', "<script>var a = '<\\/script>';</script>", "</script>", "<script>", '<script type="application/json" data-html-dependency>', "  ", "\\1\\g<0>", '{"name": "x"}', "<!-- -->", '<script data-html-dependency="" type="application/json">{}</script>', '<script type="application/json" data-html-dependency="" >{}</script>', '<SCRIPT type="application/json" data-html-dependency="">{}</SCRIPT>'])), (2, FIELD), (1, gen.TEXT))
SURR = SURR.filter(lambda s: START not in s)


def strat_roundtrip():
    seq = gen.weighted((6, st.lists(st.tuples(st.integers(0, 5), st.sampled_from([None, None, None, 0, 1, 2, 4]), st.integers(0, 3)).map(list), min_size=1, max_size=5)), (1, st.lists(st.tuples(st.integers(0, 5), st.sampled_from([None, 2]), st.integers(0, 3)).map(list), min_size=6, max_size=20)), (1, st.just([])))
    return st.fixed_dictionaries({"deps": gen.weighted((3, st.lists(depspec(), min_size=1, max_size=1)), (3, st.lists(depspec(), min_size=2, max_size=4)), (1, depspec().map(lambda d: [d, {**d, "version": "9"}, {**d, "all_files": True}]))),
                                  "seq": seq, "text": st.lists(SURR, max_size=4), "given": gen.weighted((3, st.just([])), (1, st.lists(depspec(), max_size=2)))})


# -------------------------------------------------------------------------- placeholder
def want_markup(deps, prefix, ver):
    t = TagList()
    if deps:
        t.append(Tag("script", HTML(";".join(f"{d['name']}[{Version(d['version'])}]" for d in deps)), type="application/html-dependencies"))
    for d in deps:
        t.extend(c11.markup(d, prefix, ver))
    return t.get_html_string()


def asmarkup(d):
    """The dependency as it comes back from its serialisation: the head is one piece of markup."""
    if isinstance(d.get("head"), list):
        d = {**d, "head": TagList(*[c11.mk(n) for n in d["head"]]).get_html_string()}
    return d


def test_placeholder(case, ctx):
    deps, prefix, ver = case["deps"], case["set"][0], case["set"][1]
    pat = case["pat"]
    k = case["embed"]
    # some dependencies are handed over, the others are embedded in the text
    handed, embedded = deps[k:], deps[:k]
    text = case["pre"]
    clean = case["pre"]
    for i, p in enumerate(case["mid"]):
        if i < len(embedded):
            text += build_dep(embedded[i]).serialize_to_script_json().get_html_string()
        text += p
        clean += p
    for d in embedded[len(case["mid"]):]:
        text += str(build_dep(d).serialize_to_script_json(indent=2))
    if START in clean:
        return
    doc = HTMLTextDocument(text, deps=[build_dep(d) for d in handed], deps_replace_pattern=pat)
    order = handed + embedded
    # what was embedded comes back with its head as markup, so white space between elements may differ
    want = clean.replace(pat, want_markup(handed + [asmarkup(d) for d in embedded], prefix, ver), 1)
    for _ in range(2):
        r = doc.render(**settings(prefix, ver))
        expect_eq(r["html"], want, "render() of the text document", text=text, pattern=pat)
        expect_eq([(d.name, str(d.version)) for d in r["dependencies"]], [(d["name"], str(Version(d["version"]))) for d in order], "dependencies")
    # HTMLDocument puts the same elements into <head>
    h = HTMLDocument(Tag("p"), *[build_dep(d) for d in order]).render(lib_prefix=prefix, include_version=ver)["html"]
    m = TagList(*c11_head(order, prefix, ver))
    head = Tag("html", Tag("head", Tag("meta", charset="utf-8"), m), Tag("body", Tag("p"))).get_html_string()
    expect_eq(h, "<!DOCTYPE html>\n" + head, "HTMLDocument's head")
    n = clean.count(pat)
    ctx.nontrivial(n >= 1 and bool(order))
    ctx.label("placeholder x%d" % min(n, 4), "%d embedded" % len(embedded))


def c11_head(order, prefix, ver):
    out = []
    if order:
        out.append(Tag("script", HTML(";".join(f"{d['name']}[{Version(d['version'])}]" for d in order)), type="application/html-dependencies"))
    for d in order:
        out += c11.markup(d, prefix, ver)
    return out


@st.composite
def strat_placeholder(draw):
    n = draw(st.integers(0, 4))
    names = draw(st.permutations(["a", "b", "c", "d-1", "é"]))[:n]
    tx = gen.weighted((3, gen.SHORT), (2, FIELD), (1, st.sampled_from(["\\1", "\\g<0>", "\\n", "\\", "$1", "{}", "%s"])))
    deps = [c11.norel({**draw(dep_spec(text=tx, local=None)), "name": nm}) for nm in names]
    for d in deps:
        if draw(st.integers(0, 2)) == 0:
            d["source"] = {"subdir": "/nowhere"}
    pat = draw(st.one_of(st.sampled_from(["<meta data-foo=\"\">", PH, ".", "(", "[a-z]", "\\d", "<head>", "$", "a", "\\", "</head>", "\n", "**", "x+", "^", "{{deps}}", "%s", "<script", "</script>"]), tx.filter(lambda s: s != "")))
    piece = st.one_of(st.just(pat), st.just(pat), SURR, tx, st.sampled_from(["<html><head>", "</head><body>x</body></html>", pat[:-1], pat + pat, pat.upper()]))
    pre = "".join(draw(st.lists(piece, max_size=3)))
    mid = ["".join(draw(st.lists(piece, max_size=3))) for _ in range(draw(st.integers(0, 4)))]
    return {"deps": deps, "pat": pat, "pre": pre, "mid": mid, "embed": draw(st.integers(0, n)), "set": [draw(st.sampled_from(["lib", None, "x/y", "\\1"])), draw(st.booleans())]}


# ------------------------------------------------------------------------------ JSON mode
def test_json_mode(case, ctx):
    nodes, prefix, ver = case["nodes"], case["set"][0], case["set"][1]
    x = TagList(*[c11.mk(n) for n in nodes])
    if case["wrap"]:
        x = Tag(case["wrap"][0], x, _add_ws=case["wrap"][1])
    direct = x.render()
    deps = direct["dependencies"]
    html = direct["html"]
    htmltools.html_dependency_render_mode = "json"
    try:
        js = [str(x), repr(x), x._repr_html_(), str(x)]
        same = x.render()["html"]
    finally:
        htmltools.html_dependency_render_mode = "invisible"
    expect_eq(same, html, "render() depends on the mode")
    expect(js[0] == js[1] == js[2] == js[3], "str/repr differ in JSON mode")
    expect_eq(str(x), html, "back in the default mode")
    s = js[0]
    n = len(re.findall(re.escape(START), s))
    doc = HTMLTextDocument(case["tpl"][0] + PH + case["tpl"][1] + s + case["tpl"][2], deps=[], deps_replace_pattern=PH)
    r = doc.render(**settings(prefix, ver))
    expect_eq([d.name for d in r["dependencies"]], [d.name for d in deps], "dependencies after JSON mode", serialised=s)
    for g, w in zip(r["dependencies"], deps):
        check_same(g, w, "dependency after JSON mode")
    hoisted = TagList()
    if deps:
        hoisted.append(Tag("script", HTML(";".join(f"{d.name}[{d.version}]" for d in deps)), type="application/html-dependencies"))
    for d in deps:
        w = copy.copy(d)
        if w.head is not None:
            w.head = TagList(HTML(w.head.get_html_string()))
        hoisted.extend(w.as_html_tags(lib_prefix=prefix, include_version=ver))
    a = case["tpl"][0] + hoisted.render()["html"] + case["tpl"][1] + html
    out = r["html"]
    expect(out.startswith(a), "post-processed text differs from direct rendering", got=out, want=a)
    rest = out[len(a):]
    expect(rest.endswith(case["tpl"][2]) and rest[: len(rest) - len(case["tpl"][2])].strip("\r\n\t ") == "", "post-processed text differs from direct rendering after the content", got=out, want=a + case["tpl"][2])
    # the same elements as in the head of the document
    hd = HTMLDocument(x).render(lib_prefix=prefix, include_version=ver)
    expect_eq([d.name for d in hd["dependencies"]], [d.name for d in deps], "document")
    ctx.nontrivial(bool(deps))
    ctx.label("%d dependencies" % min(5, len(deps)))


def strat_json():
    d = dep_spec(text=gen.weighted((3, gen.SHORT), (1, FIELD)), name=st.sampled_from(["a", "b", "c", "</script>", "</SCRIPT>", 'q"']), local=None)
    leaf = gen.weighted((4, gen.SHORT.map(lambda s: ["t", s])), (1, st.sampled_from([["h", "<i>"], ["r", "<r/>"], ["m", 0]])), (5, d.map(lambda d: ["d", d])), (1, st.tuples(st.just("E"), st.lists(d.map(lambda d: ["d", d]), max_size=2)).map(list)), (1, st.just(["hc", [["g", "title", False, [], [["t", "</Script>"]]]]])))
    return st.fixed_dictionaries({"nodes": gen.tree_nodes(leaf, name=st.sampled_from(["div", "span", "p", "br", "script"]), attr=st.just([]), max_leaves=7, big=False), "wrap": st.one_of(st.none(), st.tuples(st.sampled_from(["div", "span", "html", "body"]), st.booleans()).map(list)),
                                  "tpl": st.tuples(st.sampled_from(["", "<html><head>", "\n"]), st.sampled_from(["", "</head><body>\n", "</head>"]), st.sampled_from(["", "\n</body></html>", "</body>", "<script>x</script>"])).map(list), "set": st.tuples(st.sampled_from(["lib", None, "p/q"]), st.booleans()).map(list)})


def test_names(case, ctx):
    """Every element around a dependency and in its head; every attribute name in its definition."""
    nm, i = case["name"], case["i"]
    G = lambda n, k, ws=True, at=(): ["g", n, ws, [list(a) for a in at], k]
    n = len(names.ATTRS)
    for k in range(4):
        A = {names.ATTRS[(i * 7 + k * 61 + j * 3) % n]: ["v", "", "</script>", "a&b"][(i + j) % 4] for j in range(3)}
        A = {a: v for a, v in A.items() if a not in ("src", "href", "rel")}
        d = {"name": "dd", "version": "2", "source": {"href": "u"}, "script": [{"src": "a.js", **A}], "stylesheet": [{"href": "a.css", **{a: "w" for a in list(A)[:2] if a != "type"}}], "meta": [{"name": "n", "content": "c", **A}], "head": [G(nm, [["t", "x"]] if k % 2 else [], k < 2, names.attr(i + k))]}
        o = build_dep(d)
        for how in range(4):
            s = serial(o, [None, 0, 2, None][how], how)
            check_element(s)
            doc, text, deps = recovered("a" + s + "b")
            expect_eq(len(deps), 1, "recovered dependencies")
            expect_eq(text.replace("\n", ""), "ab", "the serialised element stays")
            check_same(deps[0], o, "recovered")
        e = {k_: v for k_, v in d.items() if k_ != "head"}
        for nodes in ([G(nm, [["d", e], ["t", "t"]], k < 2)], [["d", e], G(nm, [["t", "x"], ["d", {**e, "name": "ee"}]], k < 2, names.attr(i + k * 5)), ["t", "z"]]):
            test_json_mode({"nodes": nodes, "wrap": None if k % 2 else [nm, k < 2], "tpl": ["<html><head>", "</head><body>\n", "</body>"], "set": ["lib", True]}, ctx)
    ctx.nontrivial()


CHECKS = [
    Check("every element", test_names, cases=names.cases),
    Check("round trip", test_roundtrip, strategy=strat_roundtrip, quick=700, thorough=20000),
    Check("placeholder", test_placeholder, strategy=strat_placeholder, quick=500, thorough=15000),
    Check("JSON mode", test_json_mode, strategy=strat_json, quick=400, thorough=10000),
]
