"""C18 Output is deterministic across processes and independent of history."""
import re
import copy
import hashlib
import os
import sys

from hypothesis import strategies as st

import htmltools
from htmltools import HTML, HTMLDependency, HTMLDocument, HTMLTextDocument, Tag, TagList, css, head_content
from vfw import gen, names
from vfw.build import build, dep as build_dep
from vfw.core import Check, HarnessError, expect, expect_eq, fail
from vfw.deps import dep_spec, make_source, subst
from vfw.zygote import Zygote

from . import c08

PH = "\u2780PLACE\u2781"


# ------------------------------------------------------------------------ what is observed
def depview(d):
    return [d.name, str(d.version), d.serialize_to_script_json().get_html_string(), str(d.as_html_tags(lib_prefix="L")), d.as_html_tags(lib_prefix=None, include_version=False).get_html_string()]


def depdict(d):
    x = d.as_dict(lib_prefix="q")
    return repr([(k, x[k]) for k in ("name", "version", "script", "stylesheet", "meta", "head") if k in x])


def make(item):
    """Construct the object of an item (no rendering)."""
    k = item["k"]
    if k == "tree":
        xs = [c08.mk(n) for n in item["nodes"]]
        return xs[0] if len(xs) == 1 and isinstance(xs[0], Tag) and item["lone"] else TagList(*xs)
    if k == "hc":
        return head_content(*[c08.mk(n) for n in item["nodes"]])
    if k == "dep":
        return build_dep(item["dep"])
    if k == "text":
        return None
    if k == "jsx":
        from . import c20

        return c20.mk(item["comp"])
    if k == "css":
        return None
    raise ValueError(k)


def observe(item, x):
    """Everything the item shows, as strings."""
    k = item["k"]
    out = []
    if k == "tree":
        r = x.render()
        out += [r["html"], [depview(d) for d in r["dependencies"]], [d.name for d in x.get_dependencies(dedup=False)], str(x), repr(x), x._repr_html_()]
        doc = HTMLDocument(x, lang="en", class_=item.get("cls"))
        for p, v in (("lib", True), (None, False)):
            r = doc.render(lib_prefix=p, include_version=v)
            out += [r["html"], [depview(d) for d in r["dependencies"]]]
        old = htmltools.html_dependency_render_mode
        htmltools.html_dependency_render_mode = "json"
        try:
            s = str(x)
        finally:
            htmltools.html_dependency_render_mode = old
        r = HTMLTextDocument("<head>" + PH + "</head>" + s, deps_replace_pattern=PH).render()
        out += [s, r["html"], [depview(d) for d in r["dependencies"]]]
        a, kids = htmltools.consolidate_attrs(*(x if isinstance(x, TagList) else [x]), {"class": "a"}, class_="b")
        out += [repr(a), str(TagList(*kids))]
    elif k == "hc":
        out += [x.name, depview(x), HTMLDocument(x).render()["html"], str(Tag("div", x)), x.head.get_html_string()]
    elif k == "dep":
        out += [depview(x), depdict(x), HTMLDocument(Tag("p", x)).render()["html"], str(x), repr(x)]
    elif k == "text":
        parts = [p if isinstance(p, str) else build_dep(p).serialize_to_script_json(indent=item["indent"]).get_html_string() for p in item["parts"]]
        d = HTMLTextDocument("".join(parts), deps=[build_dep(p) for p in item["deps"]], deps_replace_pattern=item["pat"])
        for _ in range(2):
            r = d.render()
            out += [r["html"], [depview(y) for y in r["dependencies"]]]
    elif k == "jsx":
        t = x.tagify()
        r = TagList(x).render()
        out += [str(x), t.get_html_string(), [[d.name, str(d.version)] for d in t.get_dependencies()], r["html"], [d.name for d in r["dependencies"]]]
    elif k == "css":
        out += [css(**dict(item["kw"])), css("\n", **dict(item["kw"])), str(Tag("p", style=css(**dict(item["kw"]))))]
    return out


def noise(n, tmp):
    """Things done between the observed items; their outcome does not matter."""
    k = n[0]
    try:
        if k == "render":
            str(TagList(*[c08.mk(m) for m in n[1]]))
        elif k == "doc":
            HTMLDocument(*[c08.mk(m) for m in n[1]], id="n").render(lib_prefix="other", include_version=False)
        elif k == "save":
            HTMLDocument(*[c08.mk(m) for m in n[1]]).save_html(os.path.join(tmp, "noise.html"), libdir="nl")
        elif k == "json":
            htmltools.html_dependency_render_mode = "json"
            str(TagList(*[c08.mk(m) for m in n[1]]))
        elif k == "fail":
            Tag("div", object())
        elif k == "fail2":
            TagList(*[c08.mk(m) for m in n[1]], c08.mk(["x", "list", []])).get_html_string()
        elif k == "fail3":
            HTMLDependency("a", "not a version")
        elif k == "fail4":
            HTMLDependency("a", "1", source={"package": "htmltools", "subdir": "nowhere"}, script={"src": "x.js"}).copy_to(os.path.join(tmp, "c"))
        elif k == "hc":
            head_content(*[c08.mk(m) for m in n[1]])
        elif k == "with":
            with Tag("b"):
                sys.displayhook("x")
                raise ValueError
        elif k == "mutate":
            x = TagList(*[c08.mk(m) for m in n[1]])
            r = x.render()
            for d in r["dependencies"]:
                d.name = "changed"
                d.script.append({"src": "changed"})
                d.meta.clear()
                if d.head is not None:
                    d.head.append("changed")
            r["dependencies"].clear()
            y = x.tagify()
            y.append("changed")
            for t in y:
                if isinstance(t, Tag):
                    t.attrs["changed"] = "x"
                    t.children.clear()
        elif k == "types":
            htmltools.is_tag_child(n[1])
            Tag("i", str(n), a=True, b=1, c=1.0, d=HTML("1"), e="1")
    except Exception:
        pass
    finally:
        htmltools.html_dependency_render_mode = "invisible"


def run_plan(req):
    """Executed in a forked child. plan: list of ["make", i] | ["obs", i] | ["both", i] | ["noise", n]."""
    htmltools.html_dependency_render_mode = "invisible"
    sys.displayhook = lambda v: None
    base = os.environ["ZYGOTE_SCRATCH"]
    tmp = os.path.join(base, "z%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    try:
        items, made, outs = req["items"], {}, []
        for step in req["plan"]:
            if step[0] == "make":
                made[step[1]] = make(items[step[1]])
            elif step[0] == "obs":
                i = step[1]
                if i not in made:
                    made[i] = make(items[i])
                outs.append([i, observe(items[i], made[i])])
            elif step[0] == "both":
                outs.append([step[1], observe(items[step[1]], make(items[step[1]]))])
            else:
                noise(step[1], tmp)
        return {"outs": outs, "seed": os.environ.get("PYTHONHASHSEED"), "h": hash("probe")}
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)


# ----------------------------------------------------------------------------- the parent
_z = None
SEEDS = ["0", "1", "2", "random", "4242", "99999"]


def zygotes():
    global _z
    if _z is None:
        for i in range(3):
            os.makedirs(f"cwd{i}", exist_ok=True)
        make_source(os.path.abspath("src"))
        os.chmod(os.path.abspath("src"), 0o755)
        tier = os.environ.get("VERIF_TIER_RUN", "quick")
        n = 4 if tier == "quick" else 6
        _z = []
        for i in range(n):
            env = {"PYTHONHASHSEED": SEEDS[i], "TZ": ["UTC", "Asia/Tokyo", "America/New_York"][i % 3], "LC_ALL": ["C", "C.UTF-8"][i % 2], "PYTHONUTF8": "1"}
            _z.append(Zygote("props.c18", "run_plan", env, cwd=os.path.abspath(f"cwd{i % 3}")))
    return _z


def ask_all(reqs):
    """reqs: list of (zygote index, request); answered in parallel, in order."""
    zs = zygotes()
    by = {}
    for j, (i, r) in enumerate(reqs):
        by.setdefault(i % len(zs), []).append((j, r))
    out = [None] * len(reqs)
    k = 0
    while any(k < len(v) for v in by.values()):
        for i, v in by.items():
            if k < len(v):
                zs[i].send(v[k][1])
        for i, v in by.items():
            if k < len(v):
                out[v[k][0]] = zs[i].recv()
        k += 1
    return out


def test_battery(case, ctx):
    src = os.path.abspath("src")
    zs = zygotes()
    items = subst(case["items"], "@SRC", src)
    n = len(items)
    nz = subst(case["noise"], "@SRC", src)
    reqs = [(i, {"items": items, "plan": [["both", i]]}) for i in range(n)]  # each alone in a fresh process
    m = len(reqs)
    order = [i % n for i in case["order"]] + list(range(n))
    # one after the other, twice, with other work in between
    plan = []
    for j, i in enumerate(order):
        if nz:
            plan.append(["noise", nz[j % len(nz)]])
        plan.append(["both", i])
    reqs.append((1, {"items": items, "plan": plan}))
    # everything constructed first, then shown in another order, twice
    plan = [["make", i] for i in reversed(range(n))]
    for j, i in enumerate(order[::-1]):
        plan.append(["obs", i])
        if nz:
            plan.append(["noise", nz[(j * 3 + 1) % len(nz)]])
    reqs.append((2, {"items": items, "plan": plan}))
    # noise first, then interleaved construction
    plan = [["noise", x] for x in nz]
    for i in order:
        plan += [["make", i], ["obs", (i + 1) % n], ["obs", i]]
    reqs.append((3, {"items": items, "plan": plan}))
    reqs.append((0, {"items": items, "plan": [["both", i] for i in reversed(range(n))]}))
    for e in range(4, len(zs)):
        reqs.append((e, {"items": items, "plan": [["both", i] for i in order]}))
    res = ask_all(reqs)
    ref = {}
    for i, r in enumerate(res[:m]):
        if "error" in r:
            # refused on its own: it must be refused everywhere, so leave it out of the history
            fail("an item failed", error=r["error"], item=items[i])
        ref[i] = r["ok"]["outs"][0][1]
    for q, r in zip(reqs[m:], res[m:]):
        if "error" in r:
            fail("a sequence of renderings failed although each item succeeds alone", error=r["error"], plan=q[1]["plan"])
        for pos, (i, o) in enumerate(r["ok"]["outs"]):
            if o != ref[i]:
                d = [(a, b) for a, b in zip(o, ref[i]) if a != b][:1]
                fail(f"item {i} shows something else (hash seed {r['ok']['seed']}, position {pos}) than alone in a fresh process", got=d[0][0], alone=d[0][1], item=items[i])
    ctx.count(len(order) * (len(reqs) - m))
    ctx.nontrivial(n >= 2 and (bool(nz) or len(order) > n))
    ctx.label("%d items" % min(n, 6))
    ctx.label(*sorted({i["k"] for i in items}))
    if case["twins"]:
        ctx.label("with equal-but-different twins")


# -- twins: the same construction with one value replaced by one that compares equal, or nearly
def spots(x, path=()):
    if isinstance(x, list):
        if len(x) == 2 and x[0] in ("s", "h", "t", "v", "n") and not isinstance(x[1], (list, dict)):
            yield path, x
        elif len(x) == 5 and x[0] == "g":
            yield path, x
        for i, y in enumerate(x):
            yield from spots(y, path + (i,))
    elif isinstance(x, dict):
        if "version" in x:
            yield path, x
        for k in x:
            yield from spots(x[k], path + (k,))


SAMEVER = {"1": "1.0", "1.0": "1.0.0", "1.0.0": "1", "2": "2.0", "0.0": "0", "1.10": "1.10.0", "10": "10.0", "9": "9.0", "0.1": "0.1.0"}


def twin(x, k):
    x = copy.deepcopy(x)
    sp = list(spots(x))
    if not sp:
        return x
    path, s = sp[k % len(sp)]
    if isinstance(s, dict):
        s["version"] = SAMEVER.get(s["version"], s["version"] + ".0" if s["version"].replace(".", "").isdigit() else "1.0")
        return x
    if s[0] == "g":
        s[2] = not s[2]
    elif s[0] in "sth":
        par = x
        for q in path[:-1]:
            par = par[q]
        attr = len(par) == 2 and path[-1] == 1 and isinstance(par[0], str) and not isinstance(par[1][1], list)
        s[0] = "h" if s[0] != "h" else "s" if attr else "t"
    elif s[0] in "vn":
        v = s[1]
        s[1] = 1 if v is True else True if v == 1 and type(v) is int else 1.0 if v == 1 else 0.0 if v == 0 and type(v) is int else 0 if v == 0 and v is not False else float(v) if type(v) is int and abs(v) < 10**6 else int(v) if type(v) is float and v == v and abs(v) < 10**6 and v == int(v) else True if v in (None, False) else 1
    return x


TX = gen.weighted((5, gen.SHORT), (1, gen.TEXT))
DEP = dep_spec(text=TX, name=st.sampled_from(["a", "b", "c", "d", "e", "jquery", "A", "é"]))
NODE = gen.tree_nodes(gen.weighted((4, TX.map(lambda s: ["t", s])), (1, TX.map(lambda s: ["h", s])), (1, TX.map(lambda s: ["r", s])), (1, gen.NUMBER.map(lambda v: ["n", v])), (4, DEP.map(lambda d: ["d", d])), (2, st.lists(st.one_of(TX.map(lambda s: ["t", s]), st.sampled_from([["g", "title", False, [], [["t", "T"]]], ["h", "<x>"]])), max_size=2).map(lambda l: ["hc", l])),
                                   (1, st.sampled_from([["m", 0], ["N"], ["x", "list", [["t", "e"]]], ["X", "one", [["g", "p", True, [], []]]]]))), attr=gen.attrs(gen.weighted((4, gen.SHORT.map(lambda s: ["s", s])), (2, gen.ATTRVAL_H), (1, st.sampled_from([["v", True], ["v", 1], ["v", 1.0], ["s", "1"], ["h", "1"], ["s", ""], ["v", 0], ["v", False]])))), max_leaves=8, big=False)
HEADNODE = st.one_of(TX.map(lambda s: ["t", s]), TX.map(lambda s: ["h", s]), st.sampled_from([["g", "title", False, [], [["t", "T"]]], ["g", "meta", True, [["name", ["s", "n"]]], []], ["g", "script", True, [], [["t", "a<b"]]], ["L", [["t", "x"], ["n", 1]]]]))
TREE = st.fixed_dictionaries({"k": st.just("tree"), "nodes": NODE, "lone": st.booleans(), "cls": st.sampled_from([None, "a", "b c"])})
MANYDEPS = st.fixed_dictionaries({"k": st.just("tree"), "nodes": st.lists(DEP.map(lambda d: ["d", d]), min_size=4, max_size=14), "lone": st.just(False), "cls": st.none()})
MANYATTR = st.lists(st.tuples(gen.ATTRNAME, gen.ATTRVAL_H).map(list), min_size=4, max_size=12).map(lambda a: {"k": "tree", "nodes": [["g", "div", True, a, []]], "lone": True, "cls": None})
ITEM = gen.weighted(
    (6, TREE), (2, MANYDEPS), (1, MANYATTR),
    (3, st.fixed_dictionaries({"k": st.just("hc"), "nodes": gen.weighted((3, st.lists(HEADNODE, max_size=3)), (1, st.tuples(gen.sizes(4, 60, 8), st.lists(HEADNODE, min_size=1, max_size=3)).map(lambda t: (t[1] * t[0])[:t[0]])), (1, gen.tree_nodes(TX.map(lambda s: ["t", s]), attr=gen.attrs(), max_leaves=6)))})),
    (2, st.fixed_dictionaries({"k": st.just("dep"), "dep": DEP})),
    (2, st.fixed_dictionaries({"k": st.just("text"), "parts": st.lists(st.one_of(st.sampled_from(["<p>", PH, "\n", "x"]), DEP, DEP), max_size=8), "deps": st.lists(DEP, max_size=2), "pat": st.just(PH), "indent": st.sampled_from([None, 2])})),
    (1, st.fixed_dictionaries({"k": st.just("css"), "kw": st.lists(st.tuples(st.sampled_from(["color", "fontSize", "a_b", "x"]), st.sampled_from(["1", 1, True, 1.0, None, "é"])).map(list), max_size=4)})),
)
from . import c20  # noqa: E402

JSX = c20.strat_component().map(lambda c: c["comp"]).filter(lambda c: "('any',)" not in repr(c20.m_el(c, []))).map(lambda c: {"k": "jsx", "comp": c})
NOISE = gen.weighted((5, st.tuples(st.sampled_from(["render", "doc", "json", "mutate", "mutate", "fail2", "save", "hc"]), NODE).map(list)), (2, st.sampled_from([["fail"], ["fail3"], ["fail4"], ["with"], ["types", 1], ["types", "x"]])))


@st.composite
def strat_battery(draw):
    items = draw(st.lists(gen.weighted((8, ITEM), (1, JSX)), min_size=1, max_size=4))
    twins = []
    for _ in range(draw(st.integers(0, 3))):
        i = draw(st.integers(0, len(items) - 1))
        if items[i]["k"] == "jsx":
            continue  # HTML() inside components is not supported
        t = twin(items[i], draw(st.integers(0, 40)))
        if t != items[i] or repr(t) != repr(items[i]):
            twins.append(t)
    # the same thing inside something else
    if draw(st.booleans()):
        its = [x for x in items if x["k"] == "tree"]
        if its:
            twins.append({"k": "tree", "nodes": [["g", "section", True, [], its[0]["nodes"]], *its[-1]["nodes"]], "lone": True, "cls": None})
    items = items + twins
    noise_ = draw(st.lists(NOISE, max_size=4))
    if draw(st.booleans()) and items:
        it = items[draw(st.integers(0, len(items) - 1))]
        if it["k"] == "tree":
            noise_.append([draw(st.sampled_from(["mutate", "json", "doc", "save"])), it["nodes"]])
    return {"items": items, "twins": len(twins), "noise": noise_, "order": draw(st.lists(st.integers(0, 9), max_size=6))}


def size_batteries(tier):
    """Items of growing size, each shown by every process."""
    for n in gen_sizes(tier):
        kids = [["g", "meta", True, [["name", ["s", f"n{i}"]], ["content", ["s", "é<" * (i % 3)]]], []] if i % 2 else ["t", f"t{i} "] for i in range(n)]
        deps = [{"name": f"d{(i * 7) % n}", "version": f"1.{i % 3}", "source": {"href": f"u{i}"}, "script": [{"src": f"{i}.js", "defer": "", "async": ""}], "meta": [{"name": f"m{i}", "content": "c"}]} for i in range(n)]
        attrs = [[f"a{(i * 5) % n}_{i % 2}", ["s", f"v{i}"]] for i in range(n)]
        yield {"items": [
            {"k": "hc", "nodes": kids}, {"k": "hc", "nodes": [["t", "x" * n]]}, {"k": "hc", "nodes": [["h", "<b>é</b>\n" * n]]},
            {"k": "tree", "nodes": [["d", d] for d in deps] + [["hc", kids[:n]]], "lone": False, "cls": "a b"},
            {"k": "tree", "nodes": [["g", "div", True, attrs, [["g", "p", True, [["class", ["s", " ".join(f"c{i}" for i in range(n))]]], [["t", "&" * n]]]]]], "lone": True, "cls": None},
            {"k": "dep", "dep": {"name": "big", "version": "1", "source": {"href": "u"}, "script": [{"src": f"{i}.js"} for i in range(n)], "stylesheet": [{"href": f"{i}.css"} for i in range(n)], "head": kids}},
            {"k": "text", "parts": ["<p>", PH, *deps, "x"], "deps": deps[: n // 2], "pat": PH, "indent": None},
            {"k": "css", "kw": [[f"p{i}", i] for i in range(n)]},
        ], "twins": 0, "noise": [], "order": []}


def gen_sizes(tier):
    return [5, 9, 17, 40, 130] + ([300, 700] if tier != "quick" else [])


# ------------------------------------------------------------------- head_content identity
def test_heads(case, ctx):
    pay = [[c08.mk(n) for n in p] for p in case["payloads"]]
    hs = [head_content(*p) for p in pay]
    texts = [TagList(*[c08.mk(n) for n in p]).get_html_string() for p in case["payloads"]]
    names = [h.name for h in hs]
    again = [head_content(TagList(*[c08.mk(n) for n in p])).name for p in case["payloads"]]
    expect_eq(again, names, "head_content() names differ the second time")
    eq = neq = 0
    for i in range(len(hs)):
        for j in range(i):
            if texts[i] == texts[j]:
                eq += 1
                expect(names[i] == names[j], "equal head content has two names", a=case["payloads"][i], b=case["payloads"][j])
            else:
                neq += 1
                expect(names[i] != names[j], "different head content has one name", a=texts[i], b=texts[j])
    # in a document: each distinct content once, in order of first appearance, none lost
    first = {}
    for i, t in enumerate(texts):
        first.setdefault(t, i)
    keep = sorted(first.values())
    where = case["where"]
    kids = [Tag("div", h) if where & 1 else h for h in hs]
    r = HTMLDocument(*kids, "end").render()
    got = [d.name for d in r["dependencies"]]
    expect_eq(got, [names[i] for i in keep], "head contents listed in a document")
    want = HTMLDocument(*[HTMLDependency(names[i], "0.0", head=TagList(*[c08.mk(n) for n in case["payloads"][i]])) for i in keep], *([Tag("div") for _ in hs] if where & 1 else []), "end").render()["html"]
    if where & 1:
        cut = lambda s: s[: s.index("<body")]
        expect_eq(cut(r["html"]), cut(want), "head of a document with several head contents")
    else:
        expect_eq(r["html"], want, "document with several head contents")
    ctx.count(eq + neq)
    ctx.nontrivial(neq >= 1 and len(hs) >= 2)
    if eq:
        ctx.label("equal payloads")
    ctx.label("near collisions" if case["near"] else "independent payloads")


FRAGS = [" ", "  ", "\t", "\n", "\r", "\r\n", "\n  ", "\n\n", "\x00", "\u200b", "\ufeff", "\xa0", "0", "a", "A", "é", "e\u0301", "<", ">", "&", "&amp;", '"', "'", "\\", "/", "//", "#", "?v=1", ";", "<!-- c -->", "<!---->", "/* c */", "<br>", "<br/>", "-", "_", "\U0001f600"]


def _norms():
    """Ways in which two texts might carelessly be taken for one."""
    import html as H
    import textwrap
    import unicodedata
    import urllib.parse as U

    yield from (str.lower, str.upper, str.casefold, str.swapcase, str.title, str.strip, str.rstrip, str.lstrip, str.expandtabs)
    yield lambda s: " ".join(s.split())
    yield lambda s: "".join(s.split())
    yield lambda s: "\n".join(x.strip() for x in s.split("\n"))
    yield lambda s: "\n".join(x.rstrip() for x in s.split("\n"))
    yield lambda s: "\n".join(x for x in s.split("\n") if x.strip())
    yield lambda s: s.replace("\n  ", "\n")
    yield lambda s: s.replace("\n", "")
    yield lambda s: s.replace("\n", " ")
    yield lambda s: s.replace("\r\n", "\n").replace("\r", "\n")
    yield lambda s: s.replace("\n", "\r\n")
    yield lambda s: s.replace("  ", " ")
    yield lambda s: s.replace(" ", "  ")
    yield textwrap.dedent
    yield lambda s: textwrap.indent(s, "  ")
    yield H.escape
    yield H.unescape
    yield U.quote
    yield U.unquote
    yield lambda s: re.sub(r"<!--.*?-->", "", s, flags=re.S)
    yield lambda s: re.sub(r"/\*.*?\*/", "", s, flags=re.S)
    yield lambda s: re.sub(r">\s+<", "><", s)
    yield lambda s: re.sub(r"<[^>]*>", "", s)
    yield lambda s: re.sub(r"\W", "", s)
    yield lambda s: re.sub(r"\d", "0", s)
    yield lambda s: s.replace('"', "'")
    yield lambda s: s.replace("/>", ">")
    yield lambda s: s.replace(".js?", ".js")
    for f in ("NFC", "NFD", "NFKC", "NFKD"):
        yield lambda s, f=f: unicodedata.normalize(f, s)
    yield lambda s: s.encode("ascii", "ignore").decode()
    yield lambda s: s.encode("ascii", "replace").decode()
    yield lambda s: s.encode("latin-1", "replace").decode("latin-1")
    yield lambda s: s.encode("ascii", "xmlcharrefreplace").decode()
    yield lambda s: s.encode("utf-8", "replace").decode("latin-1")
    yield lambda s: s.encode("unicode_escape", "replace").decode()
    yield lambda s: s[::-1]
    yield lambda s: s + s
    yield lambda s: "\n".join(sorted(s.split("\n")))
    yield lambda s: "\n".join(dict.fromkeys(s.split("\n")))
    yield lambda s: "".join(sorted(s))
    yield lambda s: "".join(c for c in s if c.isprintable())
    for n in (1, 8, 16, 32, 50, 64, 100, 128, 200, 255, 256, 500, 512, 1000, 1024, 2000, 4096, 8192, 65536):
        yield lambda s, n=n: s[:n]
        yield lambda s, n=n: s[-n:]


NORMALISERS = list(_norms())
_LONG = "".join(f"/* {i} */ var x{i} = {i * i % 97};\n  f(x{i});\n" for i in range(4000))
BASES = [
    "", "x", "X x", " lead and trail \n", "a\n  b\n\n    c\t d \n", "a\r\nb\rc\n", "// c\n  f()", "<script>\n  // note\n  go();\n</script>\n",
    '<link rel="stylesheet" href="a/B.css?v=1.0#x"/>', "<style>a > b { content: '\\201C'; } /* c */</style>", "<!-- a --><meta charset='utf-8'/> <!-- b -->",
    "&amp;&lt;&#65;%41+%2B", "Crème brûlée ﬁ ﾊﾝ e\u0301 Å \u212b ß ſ İ ı", "\u200b\ufeff\xa0\u2028\u00ad\x00\x1f", "\U0001f600\U0001f601", "b\na\nb\n", "abc 123 456", "  deep\n    deeper\n  deep",
    _LONG[:90], _LONG[:300], _LONG[:1100], _LONG[:5000], _LONG[:70000],
]


def test_norms(case, ctx):
    """All careless normalisations of one text, against each other."""
    base = BASES[case["base"]]
    form = case["form"]
    texts = list(dict.fromkeys([base] + [f(base) for f in NORMALISERS] + [base[: len(base) // 2] + x + base[len(base) // 2 :] for x in FRAGS] + [x + base for x in FRAGS] + [base + x for x in FRAGS]))
    byname, byout, n = {}, {}, 0
    for t in texts:
        args = [[HTML(t)], [t], [Tag("script", HTML(t))], [Tag("title", t, _add_ws=False)], [Tag("meta", content=t)], [HTML("<a>"), HTML(t), "z"]][form]
        out = TagList(*args).get_html_string()
        h = head_content(*args).name
        for h2 in (head_content(TagList(args)).name, head_content(*args, None).name):
            expect_eq(h2, h, "equal head content has two names", text=t[:200])
        if h in byname and byname[h] != out:
            fail("different head content has one name", a=byname[h][:500], b=out[:500])
        if byout.setdefault(out, h) != h:
            fail("equal head content has two names", a=out[:500])
        byname[h] = out
        n += 1
    ctx.count(n)
    ctx.nontrivial(n > 3)


def norm_cases(tier):
    for b in range(len(BASES)):
        for f in range(6):
            yield {"base": b, "form": f}


@st.composite
def strat_heads(draw):
    near = draw(st.integers(0, 5)) > 0
    if not near:
        return {"payloads": draw(st.lists(st.lists(HEADNODE, max_size=3), min_size=2, max_size=6)), "where": draw(st.integers(0, 1)), "near": False}
    base = draw(gen.weighted((3, TX), (2, gen.TEXT), (2, st.tuples(gen.sizes(1, 300, 20), gen.SHORT).map(lambda t: (t[1] or "x")[:20] * t[0]))))
    kind = draw(st.sampled_from(["t", "h"]))
    muts = [base, base]
    for _ in range(draw(st.integers(2, 6))):
        s = draw(st.sampled_from(muts))
        p = draw(st.integers(0, max(0, len(s))))
        k = draw(st.integers(0, 5))
        if k <= 1:
            s = s[:p] + draw(st.sampled_from(FRAGS)) + s[p:]
        elif k == 2 and s:
            q = min(len(s), p + draw(st.sampled_from([1, 1, 2, 3, 20])))
            s = s[:p] + s[q:]
        elif k == 3 and s:
            p = min(p, len(s) - 1)
            s = s[:p] + chr(ord(s[p]) ^ 1 if 32 < ord(s[p]) < 0xD000 else 33) + s[p + 1 :]
        else:
            s = draw(st.sampled_from(NORMALISERS))(s)
        muts.append(s[:4000])
    pays = []
    for s in muts[1:]:
        f = draw(st.integers(0, 5))
        cut = draw(st.integers(0, len(s)))
        pays.append([[[kind, s]], [["h", s]], [[kind, s[:cut]], [kind, s[cut:]]], [["g", "title", False, [], [[kind, s]]]], [["g", "title", True, [["id", ["s", s]]], []]], [["g", "script", True, [], [["t", s]]]]][f])
    return {"payloads": pays, "where": draw(st.integers(0, 1)), "near": True}


# ------------------------------------------------ shown, changed, shown: only the changes count
def start(case):
    nodes = c08.shape(case["nodes"], case["kind"])
    objs = [c08.mk(n) for n in nodes]
    x = objs[0] if case["kind"] != "list" else TagList(*objs)
    return x, HTMLDocument(x, **case["kw"])


def change(x, doc, m):
    if m[0] == "doc_append":
        doc.append(*[c08.mk(n) for n in m[1]])
    elif m[0] == "same":  # the same kind and amount of content, other values
        for t in c08.all_tags(x):
            for k in t.attrs:
                t.attrs[k] = m[1]
            for i, c in enumerate(t.children):
                if isinstance(c, (str, HTML)):
                    t.children[i] = m[1]
    elif m[0] == "move":
        ts = c08.all_tags(x)
        if len(ts) > 1:
            a, b = ts[m[1] % len(ts)], ts[m[2] % len(ts)]
            a.children[:], b.attrs["moved"] = a.children[::-1], "1"
    else:
        c08.mutate(x, m)


def attempt(op, x, doc, tmp):
    """A changed dependency may no longer be renderable; then it must be refused either way."""
    try:
        return c08.apply(op, x, doc, {}, tmp)
    except Exception as e:
        return type(e).__name__


def look(x, doc, tmp):
    return [attempt(op, x, doc, tmp) for op in (["render"], ["str"], ["deps", True], ["deps", False], ["doc", "lib", True], ["doc", None, False], ["newdoc", "q", True], ["json_str"], ["html", 1, "\n"], ["tagify"])]


def test_changes(case, ctx):
    tmp = ctx.tmp()
    src = os.path.join(tmp, "src")
    make_source(src)
    case = subst(case, "@SRC", src)
    x, doc = start(case)
    done = []
    seen = 0
    for step in case["steps"]:
        if step[0] == "show":
            attempt(step[1], x, doc, tmp)
            seen += 1
        else:
            change(x, doc, step[1])
            done.append(step[1])
    y, ydoc = start(case)
    for m in done:
        change(y, ydoc, m)
    a, b = look(x, doc, tmp), look(y, ydoc, tmp)
    if a != b:
        d = next((p, q) for p, q in zip(a, b) if p != q)
        fail("the output depends on what was shown before the tree was changed", got=d[0], without=d[1], steps=case["steps"])
    ctx.nontrivial(seen > 0 and bool(done) and bool(c08.all_tags(x)))


SAMES = st.sampled_from([["same", "v"], ["same", "w x"], ["move", 0, 1], ["move", 1, 0]])
CHANGE = gen.weighted((6, c08.MUT), (3, SAMES), (1, st.sampled_from([["doc_append", [["t", "z"]]], ["doc_append", [["g", "body", True, [], []]]], ["doc_append", [["d", {"name": "a", "version": "99"}]]]])))
SHOW = gen.weighted((5, c08.OPS), (2, st.sampled_from([["str"], ["render"], ["doc", "lib", True], ["deps", True], ["eq"]])))


def strat_changes():
    step = st.one_of(SHOW.map(lambda o: ["show", o]), CHANGE.map(lambda m: ["change", m]))
    return st.builds(lambda t, kw, o, s, m: {**t, "kw": kw, "steps": [["show", o], *s, ["change", m]]}, c08.trees(False), c08.DOCKW, SHOW, st.lists(step, max_size=5), CHANGE)


def name_heads(tier):
    """Head contents that differ in the element or the attribute only."""
    for i, n in enumerate(names.NAMES):
        m = names.NAMES[(i * 5 + 1) % len(names.NAMES)]
        a = names.ATTRS[i * 3 % len(names.ATTRS)]
        b, c = names.ATTRS[(i * 3 + 1) % len(names.ATTRS)], names.ATTRS[(i * 3 + 2) % len(names.ATTRS)]
        G = lambda x, at=(), kids=(): [["g", x, True, [list(p) for p in at], list(kids)]]
        pays = [G(n), G(m), G(n, kids=[["t", "x"]]), G(n, kids=[["t", "y"]]), *[G(n, [[q, ["s", v]]]) for q in (a, b, c) for v in ("1", "2", "")], G(n, [[a, ["s", "1"]]], [["t", "x"]]), G(n), G(n) + G(n), G(n, kids=G(n)), G("p", kids=G(n)), G(n, [[a, ["s", "2"]]])]
        yield {"payloads": pays, "where": i % 2, "near": True}


CHECKS = [
    Check("head_content of every element", test_heads, cases=name_heads),
    Check("changed after being shown", test_changes, strategy=strat_changes, quick=500, thorough=15000),
    Check("head_content of careless normalisations", test_norms, cases=norm_cases),
    Check("head_content names", test_heads, strategy=strat_heads, quick=1200, thorough=30000),
    Check("batteries of growing size", test_battery, cases=size_batteries),
    Check("batteries across processes", test_battery, strategy=strat_battery, quick=60, thorough=2500),
]
