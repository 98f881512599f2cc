"""C11 HTMLDocument builds one head/body and hoists every dependency into head."""
import copy
import urllib.parse

from hypothesis import strategies as st

from htmltools import HTML, HTMLDocument, Tag, TagList, head_content
from packaging.version import Version

from vfw import gen, names, nest
from vfw.build import attr_value, build, flat, stored_attrs
from vfw.core import Check, expect, expect_eq, fail
from vfw.deps import dep_spec
from vfw.oracle import resolve

# ["E", nodes]: tagifiable object expanding to a TagList of nodes; ["E1", nodes]: to the single node


class Expand:
    def __init__(self, nodes, one):
        self.nodes, self.one = nodes, one

    def tagify(self):
        nest.work()
        if self.one and self.nodes and self.nodes[0][0] in "gdth":
            return mk(norm(self.nodes)[0])
        return TagList(*[mk(n) for n in norm(self.nodes)])  # fully tagified, by contract


def mk(n):
    k = n[0]
    if k in ("E", "E1"):
        return Expand(n[1], k == "E1")
    if k == "hc":
        return head_content(*[mk(c) for c in n[1]])
    if k == "g":
        return Tag(n[1], *[{a: attr_value(v)} for a, v in n[3]], *[mk(c) for c in n[4]], _add_ws=n[2])
    if k == "L":
        return [mk(c) for c in n[1]]
    if k == "U":
        return tuple(mk(c) for c in n[1])
    if k == "T":
        return TagList(*[mk(c) for c in n[1]])
    return build(n)


def norm(nodes):
    """Spec with expansions substituted, lists flattened."""
    out = []
    for n in nodes:
        if n[0] == "E1" and n[1] and n[1][0][0] in "gdth":
            out += norm(n[1][:1])
        elif n[0] in ("E", "E1", "L", "U", "T"):
            out += norm(n[1])
        elif n[0] == "N":
            pass
        elif n[0] == "g":
            out.append(["g", n[1], n[2], n[3], norm(n[4])])
        else:
            out.append(n)
    return out


def as_dep(n):
    """Uniform form of a dependency spec."""
    if n[0] == "hc":
        kids = norm(n[1])
        return {"name": ("hc", TagList(*[mk(k) for k in drop(kids)]).get_html_string()), "version": "0.0", "head": kids}
    return n[1]


def deps_of(nodes):
    out = []
    for n in nodes:
        if n[0] in ("d", "hc"):
            d = as_dep(n)
            out.append(d)
            if isinstance(d.get("head"), list):
                out += deps_of(norm(d["head"]))
        elif n[0] == "g":
            out += deps_of(n[4])
    return out


def drop(nodes):
    """Without metadata."""
    return [["g", n[1], n[2], n[3], drop(n[4])] if n[0] == "g" else n for n in nodes if n[0] not in ("d", "hc", "m")]


def join(a, b):
    return b if not a else a + b if a.endswith("/") else a + "/" + b


def items(v):
    return [] if v is None else [v] if isinstance(v, dict) else v


def markup(d, prefix, ver):
    """The dependency's meta, link, script and head markup as a list of children."""
    src = d.get("source")
    if src is None:
        base = ""
    elif "href" in src:
        base = src["href"]
    else:
        base = join(prefix or "", d["name"] + ("-" + str(Version(d["version"])) if ver else ""))
    out = []
    for m in items(d.get("meta")):
        out.append(Tag("meta", m))
    for s in items(d.get("stylesheet")):
        a = dict(s)
        a["href"] = join(base, urllib.parse.quote(s["href"]))
        a["rel"] = "stylesheet"
        out.append(Tag("link", a))
    for s in items(d.get("script")):
        out.append(Tag("script", {**s, "src": join(base, urllib.parse.quote(s["src"]))}))
    h = d.get("head")
    if isinstance(h, str):
        out.append(HTML(h))
    elif h is not None:
        out += [mk(n) for n in drop(norm(h))]
    return out


def dname(d):
    if isinstance(d["name"], tuple):  # how the name is derived is C18's business
        return head_content(*[mk(k) for k in norm(d["head"])]).name
    return d["name"]


def model(nodes, kw, prefix, ver):
    nodes = norm(nodes)
    deps = resolve(deps_of(nodes))
    extra = []
    if deps:
        extra.append(Tag("script", HTML(";".join(f"{dname(d)}[{Version(d['version'])}]" for d in deps)), type="application/html-dependencies"))
    for d in deps:
        extra += markup(d, prefix, ver)
    charset = Tag("meta", charset="utf-8")

    def live(n):
        return Tag(n[1], *[{a: attr_value(v)} for a, v in n[3]], *[mk(c) for c in drop(n[4])], _add_ws=n[2])

    if len(nodes) == 1 and nodes[0][0] == "g" and nodes[0][1] == "html":
        _, name, ws, attrs, kids = nodes[0]
        at = dict(Tag("x", *[{a: attr_value(v)} for a, v in attrs]).attrs)
        for k, v in Tag("x", kw).attrs.items():
            at[k] = v
        kids = drop(kids)
        hi = next((i for i, k in enumerate(kids) if k[0] == "g" and k[1] == "head"), None)
        out = [mk(k) for k in kids]
        if hi is None:
            out.insert(0, Tag("head", charset, *extra))
        else:
            h = kids[hi]
            out[hi] = Tag("head", *[{a: attr_value(v)} for a, v in h[3]], charset, *[mk(k) for k in h[4]], *extra, _add_ws=h[2])
        html = Tag("html", at, *out, _add_ws=ws)
        shape = "html"
    else:
        if len(nodes) == 1 and nodes[0][0] == "g" and nodes[0][1] == "body":
            body = live(nodes[0])
            shape = "body"
        else:
            body = Tag("body", *[mk(k) for k in drop(nodes)])
            shape = "fragment"
        html = Tag("html", kw, Tag("head", charset, *extra), body)
    return "<!DOCTYPE html>\n" + html.get_html_string(), deps, shape


def check(doc, nodes, kw, settings, lab):
    prefix, ver = settings
    r = doc.render(**({} if settings == ["lib", True] else dict(lib_prefix=prefix, include_version=ver)))
    want, deps, shape = model(nodes, kw, prefix, ver)
    expect_eq([(d.name, str(d.version)) for d in r["dependencies"]], [(dname(d), str(Version(d["version"]))) for d in deps], f"{lab}: returned dependencies", tree=nodes)
    for g, w in zip(r["dependencies"], deps):
        expect_eq([len(g.script), len(g.stylesheet), len(g.meta), g.head is None], [len(items(w.get(k))) for k in ("script", "stylesheet", "meta")] + [w.get("head") is None], f"{lab}: the wrong object was returned for {g.name}")
    expect_eq(r["html"], want, f"{lab}: document", tree=nodes, html_attrs=kw)
    return deps, shape


def test(case, ctx):
    nodes, kw = case["nodes"], {k: HTML(v[1]) if isinstance(v, list) else v for k, v in case["kw"].items()}
    cut = min(case["cut"], len(nodes))
    doc = HTMLDocument(*[mk(n) for n in nodes[:cut]], **kw)
    if case["early"]:
        check(doc, nodes[:cut], kw, case["set"][0], "before append")
    rest = [mk(n) for n in nodes[cut:]]
    if case["each"]:
        for r in rest:
            doc.append(r)
    else:
        doc.append(*rest) if rest else None
    for s in case["set"]:
        deps, shape = check(doc, nodes, kw, s, f"settings {s}")
    if case["copy"]:
        c = copy.copy(doc)
        c.append(Tag("p", "more"))
        check(c, nodes + [["g", "p", True, [], [["t", "more"]]]], kw, ["lib", True], "copied document")
        check(doc, nodes, kw, ["lib", True], "original of the copied document")
    # statement-level invariants, independent of the model tree
    out = doc.render()["html"]
    expect(out.startswith("<!DOCTYPE html>\n<html"), "start of the document", out=out[:200])
    expect(out.count('<script type="application/html-dependencies">') == (1 if deps else 0), "number of dependency listings", out=out)
    for d in deps:
        for s in items(d.get("script")):
            pass
    inhead = any(True for n in norm(nodes) if n[0] == "g" and n[1] == "html" for c in n[4] if c[0] == "g" and c[1] == "head" and deps_of(c[4]))
    ctx.nontrivial(bool(deps) or shape != "fragment")
    ctx.label("shape " + shape, "%d dependencies" % min(len(deps), 6))
    if inhead:
        ctx.label("dependencies in the user's head")
    if len(deps_of(norm(nodes))) > len(deps):
        ctx.label("resolution drops some")
    if cut < len(nodes):
        ctx.label("appended later")


TEXT = gen.weighted((3, gen.SHORT), (1, gen.HOT))
NAMES = gen.weighted((3, st.sampled_from(["a", "b", "c", "jq", "lib", "a-1", "x.y"])), (1, gen.DEPNAME_ODD))
VERS = gen.weighted((3, st.sampled_from(["1", "1.0", "1.9", "1.10", "2.0.1", "0.1", "1.0a1", "v3"])), (1, gen.VERSION))


def depleaf():
    d = dep_spec(text=TEXT, name=NAMES, version=VERS).map(norel)
    hcnode = st.sampled_from([["t", "x<"], ["g", "title", False, [], [["t", "T"]]], ["g", "style", True, [], [["t", "a>b"]]], ["g", "meta", True, [["name", ["s", "q"]]], []], ["h", "<link>"], ["d", {"name": "inner", "version": "1"}],
                              ["g", "div", True, [], [["d", {"name": "b", "version": "5", "source": {"href": "i"}, "script": [{"src": "i.js"}]}], ["t", "k"]]]])
    return gen.weighted((6, d.map(lambda d: ["d", d])), (1, st.lists(hcnode, min_size=1, max_size=3).map(lambda h: ["hc", h])),
                        (1, st.tuples(d, st.lists(hcnode, max_size=3)).map(lambda t: ["d", {**t[0], "head": t[1]}])))


def norel(d):
    d = dict(d)
    for s in items(d.get("stylesheet")):
        s.pop("rel", None)
    return d


def strategy():
    leaf = gen.weighted((4, TEXT.map(lambda s: ["t", s])), (1, st.sampled_from([["h", "<i>h</i>"], ["r", "<r/>"], ["m", 0], ["N"], ["n", 1]])), (4, depleaf()))
    name = gen.weighted((4, st.sampled_from(["div", "span", "p", "b", "br", "script", "section", "title", "main"])), (1, gen.TAGNAME))
    attr = gen.weighted((4, st.sampled_from([[], [], [["id", ["s", "x"]]], [["class", ["s", "a<b"]], ["data-x", ["v", True]]]])), (1, gen.attrs(gen.ATTRVAL_H, 3)))
    frag = gen.tree_nodes(leaf, name=name, attr=attr, max_leaves=7, fan=4, big=False)
    ex = st.tuples(st.sampled_from(["E", "E1"]), st.lists(leaf, max_size=3)).map(list)
    frag = st.one_of(frag, frag, st.tuples(frag, ex, frag).map(lambda t: t[0] + [t[1]] + t[2]))
    head_kid = gen.weighted((3, st.sampled_from([["g", "title", False, [], [["t", "my"]]], ["g", "meta", True, [["charset", ["s", "latin1"]]], []], ["g", "script", True, [["src", ["s", "u.js"]]], []], ["g", "link", True, [["rel", ["s", "x"]]], []], ["t", "raw"], ["h", "<base>"]])), (2, depleaf()), (1, ex))
    head = st.tuples(st.lists(head_kid, max_size=5), st.booleans(), attr).map(lambda t: ["g", "head", t[1], t[2], t[0]])
    body = st.tuples(frag, st.booleans(), attr).map(lambda t: ["g", "body", t[1], t[2], t[0]])
    htattr = st.sampled_from([[], [["lang", ["s", "fr"]], ["id", ["s", "root"]]], [["class", ["s", "k"]], ["data-x", ["s", "1"]]], [["class", ["h", "<&h>"]]]])
    htattr = gen.weighted((3, htattr), (2, gen.attrs(gen.ATTRVAL_H, 5)))

    @st.composite
    def html(draw):
        kids = []
        k = draw(st.integers(0, 9))
        hd = [draw(head)] if k < 7 else []
        bd = [draw(body)] if draw(st.integers(0, 9)) < 7 else draw(frag)
        pre = draw(st.lists(leaf, max_size=3)) if draw(st.integers(0, 2)) == 0 else []
        mid = draw(st.lists(leaf, max_size=2)) if draw(st.integers(0, 3)) == 0 else []
        post = draw(st.lists(leaf, max_size=2)) if draw(st.integers(0, 3)) == 0 else []
        kids = pre + hd + mid + bd + post
        if draw(st.integers(0, 6)) == 0:
            kids = pre + bd + mid + hd + post
        if draw(st.integers(0, 6)) == 0:
            kids = [["L", kids]]
        elif draw(st.integers(0, 6)) == 0:
            kids = [["E", kids]]
        return ["g", "html", draw(st.booleans()), draw(htattr), kids]

    @st.composite
    def content(draw):
        k = draw(st.integers(0, 9))
        if k < 4:
            c = draw(frag)
        elif k < 6:
            c = [draw(body)]
        elif k < 9:
            c = [draw(html())]
        else:
            # a root that is not the sole content
            c = draw(frag) + [draw(st.one_of(html(), body, head))] + draw(frag)
            if len([n for n in norm(c) if n[0] not in "m"]) < 2 or len(drop(norm(c))) < 2:
                c = c + [["t", "extra"]]
        if k >= 4 and k < 9:
            w = draw(st.integers(0, 9))
            if w == 0:
                c = [["L", c], ["N"]]
            elif w == 1:
                c = [["T", c]]
            elif w == 2:
                c = [["E", c]]
            elif w == 3:
                c = [["E1", c], ["E", []]]
        return c

    kw = gen.weighted((2, st.just({})), (2, st.dictionaries(gen.weighted((4, st.sampled_from(["lang", "class_", "id", "data_x", "style", "dir_"])), (1, gen.ATTRNAME)), st.one_of(TEXT, TEXT, st.sampled_from([True, False, None, 5, 1.5, ""]), st.one_of(st.sampled_from(["&amp;", "a&lt;b", "x y"]), TEXT).map(lambda s: ["h", s.replace('"', "&quot;")])), max_size=3)))
    sets = st.lists(st.tuples(gen.weighted((3, st.just("lib")), (3, st.sampled_from([None, "", "x", "a/b", "p q/", "/abs", "http://cdn/x", "../up", ".", "Lib", "X/Y_z", "é", "a//b", "q"]))), st.booleans()).map(list), min_size=1, max_size=2)
    return st.builds(lambda n, k, s, c, e, h, cp: {"nodes": n, "kw": k, "set": s, "cut": c, "early": e, "each": h, "copy": cp},
                     content(), kw, sets, st.sampled_from([9, 9, 0, 0, 1, 2]), st.booleans(), st.booleans(), gen.weighted((3, st.just(False)), (1, st.just(True))))


# every combination of a few parts
def combos(tier):
    import itertools

    d1 = ["d", {"name": "d1", "version": "1", "source": {"href": "u"}, "script": [{"src": "a.js"}]}]
    d2 = ["d", {"name": "d1", "version": "1.10", "source": {"subdir": "s"}, "stylesheet": [{"href": "é b.css"}], "head": "<x-h>"}]
    d3 = ["d", {"name": "d3", "version": "0", "meta": [{"name": "n", "content": "c"}]}]
    hc = ["hc", [["g", "title", False, [], [["t", "T"]]]]]
    slot = [[], [d1], [d2, d3], [hc, d1, hc]]
    P = ["g", "p", True, [], [["t", "text"]]]
    for a, b, c in itertools.product(range(4), repeat=3):
        A, B, C = slot[a], slot[b], slot[c]
        head = ["g", "head", True, [["id", ["s", "hd"]]], A + [["g", "title", True, [], [["t", "user"]]]] + B]
        body = ["g", "body", False, [["id", ["s", "bd"]]], C + [P]]
        for kids in ([head, body], [body], [head], [body, head], A + [["t", "x"], head, body], [P], [head] + C + [body] + B, [body] + C, C + [body], [body, body] + A, [head] + A, [["m", 1], body], [body, ["N"], ["t", ""]]):
            for wrap in (lambda k: k, lambda k: [["g", "html", True, [["lang", ["s", "de"]]], k]]):
                nodes = wrap(kids)
                if len(nodes) == 1 or not nodes or nodes[0][1] != "html":
                    for cut in (9, 0):
                        yield {"nodes": [["N"], *nodes] if (a + 2 * b + c) % 4 == 0 else nodes, "kw": {"lang": "en", "class_": "q"} if (a + b) % 2 else {}, "set": [["lib", True], [None, False]], "cut": cut, "early": cut == 0, "each": (a + c) % 2 == 0, "copy": a == b}


# structural elements inside each other, alone or next to something
def nestings(tier):
    import itertools

    d = ["d", {"name": "dd", "version": "2", "source": {"href": "u"}, "script": [{"src": "a.js"}]}]
    G = lambda n, k, ws=True, at=(): ["g", n, ws, [list(a) for a in at], k]
    inner = [
        [], [["t", "x"]], [d], [["m", 0]], [G("head", [])], [G("head", [G("title", [["t", "q"]]), d])], [G("body", [])], [G("body", [G("p", [["t", "b"]])])], [G("html", [G("head", []), G("body", [["t", "z"]])])],
        [G("title", [["t", "T"]])], [G("div", [G("head", [["t", "deep"]])])], [G("div", [G("body", [d])])], [G("meta", [], at=[["charset", ["s", "utf-8"]]])], [G("HEAD", [["t", "u"]])], [G("Body", [])], [G("header", []), G("thead", [])],
        [G("script", [["t", "a<b"]])], [["h", "<head></head>"]], [["t", "<head>"]],
    ]
    outer = ["html", "body", "head", "div", "HTML", "Html", "BODY", "title", "main", "span"]
    kws = [{}, {"lang": "en", "class_": "q", "id": None}, {"class": "a", "class_": "b", "data_x": "1", "data-x": "2", "hidden": True, "no": False}]
    i = 0
    for o, a in itertools.product(outer, range(len(inner))):
        for b in range(len(inner) if tier != "quick" or o in ("html", "body") else 4):
            kids = inner[a] + inner[b]
            if o == "html" and sum(1 for k in kids if k[0] == "g" and k[1] == "head") > 1:
                continue
            for at in ([], [["class", ["s", "own"]], ["lang", ["s", "fr"]]]):
                for ws in (True, False):
                    i += 1
                    yield {"nodes": [G(o, kids, ws, at)], "kw": kws[i % 3], "set": [["lib", True]], "cut": 9 * (i % 2), "early": i % 4 == 0, "each": True, "copy": i % 8 == 0}


def test_names(case, ctx):
    """Every element as the content, at the top of it, in the head, in the body and with a dependency inside; every attribute for the html element."""
    nm, i = case["name"], case["i"]
    G = lambda n, k, ws=True, at=(): ["g", n, ws, [list(a) for a in at], k]
    d = ["d", {"name": "dd", "version": "2", "source": {"href": "u"}, "script": [{"src": "a.js"}]}]
    t, hd, bd = ["t", "x<"], G("head", [["t", "h"], d]), G("body", [["t", "b"]])
    plain = nm not in ("html", "head", "body")
    k = 0
    for kids in ([], [t], [d], [t, d, G("i", [], False)], [G(nm, [d])], [G("title", [t])]):
        for ws in (True, False):
            if nm == "html" and sum(c[1] == "head" for c in kids if c[0] == "g") > 1:
                continue
            k += 1
            at = names.attr(i + k * 5) if k % 2 else []
            el = G(nm, kids, ws, at)
            tops = [[el], [el, t], [t, el], [d, el, d], [el, bd], [hd, el], [G("div", [el])], [G("body", [el])], [G("body", [t, el, d])]]
            if plain:
                tops += [[G("html", [el])], [G("html", [el, bd])], [G("html", [hd, el])], [G("html", [el, hd, el, bd, el])], [G("html", [G("head", [el]), bd])], [G("html", [G("head", [t, el, d]), G("body", [el])])]]
            for j, nodes in enumerate(tops):
                a = names.ATTRS[(i * 31 + k * 17 + j) % len(names.ATTRS)]
                test({"nodes": nodes, "kw": {a: ["v", "", True, ["h", "&lt;"]][(j + k) % 4]} if j % 2 else {}, "set": [["lib", True]] if j % 3 else [[None, False]], "cut": 9 * (j % 2), "early": False, "each": j % 4 == 0, "copy": False}, ctx)
    ctx.nontrivial()


CHECKS = [
    Check("every element", test_names, cases=names.cases),
    Check("nestings", test, cases=nestings),
    Check("combinations", test, cases=combos),
    Check("documents", test, strategy=strategy, quick=1000, thorough=20000),
]
