"""C16 Class/style helpers and css() act as token-set and declaration algebra."""
import copy
import html as _html
import re

from hypothesis import strategies as st

from htmltools import HTML, Tag, css, svg, tags
from vfw import gen, names
from vfw.build import as_str
from vfw.core import Check, expect, expect_eq, fail

MAKERS = [lambda *a, **k: Tag("x", *a, **k), tags.div, tags.input, svg.g, lambda *a, **k: Tag("y", *a, _add_ws=False, **k)]


def esc(tok, how):
    """A spelling of the token inside HTML()."""
    s = tok.replace("&", "&amp;").replace('"', "&quot;")
    if how % 3 == 1:
        s = s.replace("<", "&lt;").replace(">", "&gt;").replace("'", "&#39;")
    elif how % 3 == 2:
        s = "".join({"&": "&#38;", '"': "&#x22;"}.get(c) or (f"&#{ord(c)};" if c.isascii() and c.isalpha() and i == 0 else c) for i, c in enumerate(tok))
    return s


def tokens_of(t):
    v = t.attrs.get("class")
    if v is None:
        return []
    if isinstance(v, HTML):
        return _html.unescape(v.as_string()).split()
    expect(isinstance(v, str), "class is not a string", type=type(v))
    return v.split()


def rendered(t, name):
    m = re.search(r'^<[^\s>/]+(?:\s[^"]*?(?:"[^"]*"[^"]*?)*?)?\s' + name + r'="([^"]*)"', str(t))
    return None if m is None else _html.unescape(m.group(1))


def others(t):
    return ([(k, type(v), str(v)) for k, v in t.attrs.items() if k not in ("class", "style")], [id(c) for c in t.children], t.name, t.add_ws)


def style_text(t):
    v = t.attrs.get("style")
    return None if v is None else _html.unescape(v.as_string()) if isinstance(v, HTML) else v


def sty(v):
    """(argument, text of the declarations)"""
    k, s = v
    return (HTML(esc(s, 0)), s) if k == "h" else (as_str(s), s)


def glue(got, parts):
    """parts in order, separated by white space only"""
    want = [p for p in parts if p.strip()]
    pat = r"\s*".join(re.escape(p.strip()) for p in want)
    return re.fullmatch(r"\s*" + pat + r"\s*", got) is not None


def test_history(case, ctx):
    kw, args = {}, []
    toks, decl = [], None
    init = case["cls"]
    if init is not None:
        toks = [t for t, _ in init["toks"]]
        ws = init["ws"]
        parts = [esc(t, h) if init["html"] else t for t, h in init["toks"]]
        s = (ws[0] if init["pad"] & 1 else "") + "".join(p + (ws[i % len(ws)] if i < len(parts) - 1 else "") for i, p in enumerate(parts)) + (ws[-1] if init["pad"] & 2 else "")
        v = HTML(s) if init["html"] else s
        if init["via"] == 0:
            kw["class_"] = v
        elif init["via"] == 1:
            args.append({"class": v})
        elif init["via"] == 2:
            args += [{"id": "i"}, {"class": v}, "kid"]
        else:
            args.append({"class": None})
            kw["class_"] = v
    if case["style"] is not None:
        kw["style"], decl = sty(case["style"])
        decl = [decl]
    f = MAKERS[case["make"] % len(MAKERS)] if isinstance(case["make"], int) else lambda *a, **k: Tag(case["make"], *a, **k)
    t = f(*args, *([{"data-k": "v", "title": "a b;"}] if case["extra"] else []), **kw)
    had = init is not None
    base = others(t)
    twin = None
    pool = ["foo", "foobar", "foo-x", "a", "a&b", "a&amp;b", "<", ""]
    for op in case["ops"]:
        k = op[0]
        before_cls, before_style, before_items = t.attrs.get("class"), t.attrs.get("style"), [(n, type(v), str(v)) for n, v in t.attrs.items()]
        if k == "add":
            names = op[1]
            arg = as_str(op[3][0] + op[3][2].join(names) + op[3][1])
            r = t.add_class(arg, prepend=op[2]) if op[2] or op[4] else t.add_class(arg)
            expect(r is t, "add_class() does not return the tag")
            toks = names + toks if op[2] else toks + names
            for n in names:
                expect(t.has_class(n) is True, "has_class() is not true after add_class()", token=n, attr=t.attrs.get("class"))
        elif k == "remove":
            n = op[1] if op[1] is not None else (toks[op[4] % len(toks)] if toks else "foo")
            arg = as_str(op[3][0] + n + op[3][1])
            r = t.remove_class(arg)
            expect(r is t, "remove_class() does not return the tag")
            was = list(toks)
            toks = [x for x in toks if x != n]
            if n:
                expect(t.has_class(n) is False, "has_class() after remove_class()", token=n, attr=t.attrs.get("class"))
                if was and not toks:
                    expect("class" not in t.attrs, "the attribute stays when no class remains", attrs=dict(t.attrs))
            if n not in was:
                expect(had or "class" not in t.attrs, "remove_class() created the attribute")
        elif k == "remove_all":
            for n in sorted(set(toks)):
                t.remove_class(n)
            if toks:
                expect("class" not in t.attrs, "the attribute stays when no class remains", attrs=dict(t.attrs))
            toks = []
        elif k == "has":
            for n in op[1]:
                expect(t.has_class(as_str(n)) is (n in toks), "has_class()", token=n, attr=t.attrs.get("class"), tokens=toks)
        elif k == "style":
            arg, txt = sty(op[1])
            ok = txt.endswith(";") if op[1][0] == "s" else arg.endswith(";")
            try:
                r = t.add_style(arg, prepend=op[2]) if op[2] or op[3] else t.add_style(arg)
            except ValueError:
                if ok:
                    fail("add_style() rejected a declaration ending in a semicolon", style=arg)
                expect_eq([(n, type(v), str(v)) for n, v in t.attrs.items()], before_items, "a rejected add_style() changed the tag")
                ctx.label("style rejected")
            else:
                if not ok:
                    fail("add_style() accepted a declaration without final semicolon", style=arg)
                expect(r is t, "add_style() does not return the tag")
                decl = ([txt] + (decl or [])) if op[2] else ((decl or []) + [txt])
                got = style_text(t)
                expect(got is not None and glue(got, decl), "style after add_style()", got=got, want=decl)
        elif k == "css":
            s = css(**{a: as_str(b) for a, b in op[1]})
            r = t.add_style(s, prepend=op[2])
            expect(r is t, "add_style() does not return the tag")
            if s is not None:
                decl = [s] + (decl or []) if op[2] else (decl or []) + [s]
            got = style_text(t)
            expect((got or "") == (before_style or "") if s is None and not isinstance(before_style, HTML) else True, "add_style(None) changed the style")
            expect(decl is None and got is None or glue(got or "", decl or []), "style after add_style(css())", got=got, want=decl)
        elif k == "fork":
            # another tag with the same values: later changes are its own
            twin = (t, list(toks), list(decl) if decl else decl, others(t))
            t = copy.copy(t) if op[1] else t.tagify()
            base = others(t)
        elif k == "set":
            t.attrs["class"] = HTML(" ".join(esc(x, 1) for x in op[1])) if op[2] else " ".join(op[1])
            toks = list(op[1])
        had = "class" in t.attrs
        expect_eq(tokens_of(t), toks, f"class tokens after {k}", op=op, attr=t.attrs.get("class"), was=before_cls)
        if k not in ("style", "css"):
            expect(t.attrs.get("style") == before_style and type(t.attrs.get("style")) is type(before_style), f"{k} changed the style")
        else:
            expect(t.attrs.get("class") == before_cls, f"{k} changed the class")
        expect_eq(others(t), base, f"{k} changed something else")
        for n in toks[:6]:
            expect(t.has_class(n) is True, "has_class() of a token", token=n, tokens=toks)
            for m in (n[:-1], n[1:], n + "x", n.swapcase(), n + "-x", n.replace("&", "&amp;")):
                expect(t.has_class(m) is (m in toks), "has_class()", token=m, tokens=toks)
        for n in pool:
            expect(t.has_class(n) is (n in toks), "has_class()", token=n, tokens=toks)
        r = rendered(t, "class")
        expect_eq((r or "").split(), toks, "class in the rendered tag", html=str(t))
        rs = rendered(t, "style")
        expect(glue(rs or "", decl or []), "style in the rendered tag", html=str(t), want=decl)
        if twin:
            expect_eq((tokens_of(twin[0]), others(twin[0])), (twin[1], twin[3]), "another tag changed")
            st_ = style_text(twin[0])
            expect(glue(st_ or "", twin[2] or []), "another tag's style changed")
    kinds = {o[0] for o in case["ops"]}
    ctx.nontrivial(len(case["ops"]) >= 2 and bool(kinds & {"add", "remove", "style", "css"}))
    ctx.label(*sorted(kinds))
    if init and init["html"]:
        ctx.label("HTML class")


def nows(s):
    return "".join(c for c in s if not c.isspace())


POOL = ["foo", "foo", "foobar", "foo-x", "fo", "Foo", "FOO", "foo_", "o", "bar", "x-foo", "barfoo", "a", "ab", "b", "a&b", "a&amp;b", "&amp;", "&", "&lt;", "<", "<b>", '"', "'", 'q"q', "é", "e\u0301", "1", "10", "-", "_", ".", ".*", "f.o", "(", "[a-z]", "\\", "\\b", "foo.bar", "None", "True", "class", "md:w-1/2", "w-[3px]", "{x}", "%s", ";", "foo;"]
TOK = gen.weighted((6, st.sampled_from(POOL)), (1, gen.SHORT.map(nows).filter(bool)), (1, gen.TEXT.map(nows).filter(bool)))
WS = st.sampled_from([" ", "  ", "\t", "\n", " \n ", "\r\n", "\x0c"])
PAD = st.tuples(gen.weighted((3, st.just("")), (1, WS)), gen.weighted((3, st.just("")), (1, WS)), WS).map(list)
DECL = gen.weighted((5, st.sampled_from(["a:b;", "color: red;", "x:y;z:w;", ";", "a:url('x');", 'content:"<&>";', "--v:1;", "é:ü;", "a:b;\nc:d;"])), (2, st.sampled_from(["a:b", "a:b; ", "a:b;\n", "", " ", ";a", "a:b;c:d", "a:b\uff1b", "a:b;;c"])), (2, gen.TEXT.map(lambda s: s + ";")), (1, gen.TEXT))
STY = gen.weighted((3, DECL.map(lambda s: ["s", s])), (1, DECL.map(lambda s: ["h", s])))
CSSNAME = gen.weighted((3, st.sampled_from(["color", "font_size", "backgroundColor", "background_color", "WebkitTransform", "_webkit_x", "__my_var", "x", "marginTop", "z_index", "fontSize_", "aBC", "border_topLeftRadius", "X", "float_", "a1B2", "é_aB", "日_本", "ñ", "_é"])), (2, st.text(st.sampled_from("abcXYZ_019-"), min_size=1, max_size=8).filter(lambda s: s != "collapse_")),
                       (1, st.tuples(st.lists(st.sampled_from(["border", "_top", "Left", "_", "radius", "_width", "B", "color", "Webkit", "_text_size_", "ADJUST"]), min_size=2, max_size=9)).map(lambda t: "".join(t[0]))))
CSSVAL = gen.weighted((3, st.sampled_from(["red", "12px", "", "a b", 0, 1, 1.5, True, False, None, None, "x;y", "é", ["a", "b"], []])), (1, gen.SHORT), (1, gen.NUMBER))
CSSKW = gen.weighted((6, st.lists(st.tuples(CSSNAME, CSSVAL).map(list), max_size=5)), (1, st.lists(st.tuples(CSSNAME, CSSVAL).map(list), min_size=6, max_size=30)))
OP = gen.weighted(
    (6, st.tuples(st.just("add"), gen.weighted((5, st.lists(TOK, min_size=1, max_size=1)), (1, st.lists(TOK, min_size=2, max_size=3)), (1, st.just([]))), st.booleans(), PAD, st.booleans()).map(list)),
    (6, st.tuples(st.just("remove"), gen.weighted((2, st.none()), (3, TOK), (1, st.just(""))), st.just(0), PAD, st.integers(0, 9)).map(list)),
    (2, st.tuples(st.just("has"), st.lists(TOK, max_size=4)).map(list)),
    (4, st.tuples(st.just("style"), STY, st.booleans(), st.booleans()).map(list)),
    (2, st.tuples(st.just("css"), CSSKW, st.booleans()).map(list)),
    (1, st.tuples(st.just("fork"), st.booleans()).map(list)),
    (1, st.tuples(st.just("set"), st.lists(TOK, min_size=1, max_size=3), st.booleans()).map(list)),
    (1, st.just(["remove_all"])),
)


def strat_history():
    many = st.tuples(gen.sizes(3, 120, 10), st.lists(st.tuples(TOK, st.integers(0, 2)).map(list), min_size=1, max_size=4)).map(lambda t: [t[1][i % len(t[1])] if i % 2 else [f"k{i}", 0] for i in range(t[0])])
    toks = gen.weighted((5, st.lists(st.tuples(TOK, st.integers(0, 2)).map(list), max_size=5)), (1, many))
    cls = gen.weighted((1, st.none()), (3, st.fixed_dictionaries({"toks": toks, "ws": st.lists(WS, min_size=1, max_size=3), "pad": st.integers(0, 3), "html": gen.weighted((2, st.just(False)), (1, st.just(True))), "via": st.integers(0, 3)})))
    return st.fixed_dictionaries({"cls": cls, "style": st.one_of(st.none(), STY), "make": st.integers(0, 4), "extra": st.booleans(), "ops": gen.weighted((4, st.lists(OP, min_size=1, max_size=5)), (2, st.lists(OP, min_size=4, max_size=14)))})


def cases_small(tier):
    """All initial class lists up to length 3 over confusable tokens x every single operation."""
    import itertools

    voc = ["a", "ab", "a-b", "a&"]
    lists = [list(p) for n in range(4) for p in itertools.product(voc, repeat=n)]
    for i, l in enumerate(lists):
        for tok in voc + ["b", "A", "-"]:
            for html in (False, True):
                cls = {"toks": [[x, 0] for x in l], "ws": [" ", "\n\t"], "pad": i % 4, "html": html, "via": i % 4}
                pad = [["", "", " "], [" ", "\n", " "]][i % 2]
                yield {"cls": cls if l else None, "style": None, "make": i % 5, "extra": i % 2, "ops": [["add", [tok], bool(i % 2), pad, True], ["remove", tok, 0, pad, 0], ["remove", tok, 0, ["", "", ""], 0], ["add", [tok], not i % 2, pad, False], ["remove_all"], ["add", [tok], False, pad, False]]}
                yield {"cls": cls if l else None, "style": ["s", "x:y;"], "make": i % 5, "extra": i % 2, "ops": [["remove", tok, 0, pad, 0], ["add", [tok], bool(i % 2), pad, True], ["add", ["ab"], False, pad, True], ["remove", "a", 0, pad, 0]]}


# ---------------------------------------------------------------------------------- css()
def css_name(k):
    out = ""
    for c in k:
        out += "-" if c == "_" else "-" + chr(ord(c) + 32) if "A" <= c <= "Z" else c
    return out


def test_css(case, ctx):
    kw = {}
    for a, b in case["kw"]:
        kw[a] = b
    keep = {k: v for k, v in kw.items() if v is not None}
    want = [css_name(k) + ":" + (" ".join(v) if isinstance(v, list) else str(v)) + ";" for k, v in keep.items()]
    kw = {k: as_str(v) for k, v in kw.items()}
    got = css(**kw)
    if not keep:
        expect(got is None, "css() without properties", got=got)
    else:
        expect_eq(got, "".join(want), "css()", kw=kw)
    t = Tag("x", style=case["style"])
    r = t.add_style(got)
    expect(r is t, "add_style() does not return the tag")
    if keep:
        expect_eq(t.attrs["style"], (case["style"] + " " if case["style"] is not None else "") + got, "add_style(css())")
    t2 = Tag("x", style=got)
    expect_eq(t2.attrs.get("style"), got, "style=css()")
    c = case["collapse"]
    if c is not None:
        c = as_str(c)
    if c is not None:
        g = css(c, **kw) if case["pos"] else css(collapse_=c, **kw)
        if not keep:
            expect(not g, "css(collapse_) without properties", got=g)
        else:
            expect(g in (str.join(c, want), str.join(c, want) + str.__str__(c)), "css(collapse_=)", got=g, want=c.join(want))
    ctx.nontrivial(len(keep) >= 1 and (len(keep) < len(kw) or any(k != k.lower() or "_" in k for k in keep)))
    ctx.label("%d properties" % min(6, len(keep)))


def strat_css():
    many = gen.sizes(1, 80, 8).map(lambda n: [[f"p{i}Q_r", i if i % 3 else None] for i in range(n)])
    return st.fixed_dictionaries({"kw": gen.weighted((8, CSSKW), (1, many)), "style": st.one_of(st.none(), st.just("a:b;"), gen.SHORT), "collapse": st.one_of(st.none(), st.sampled_from(["", "\n", " ", "; "]), gen.SHORT), "pos": st.booleans()})


def cases_close(tier):
    """A token among all that look like it: with every other character before, after or inside it, in another case, shortened, doubled."""
    cs = [chr(c) for c in [*range(33, 127), *range(0xA1, 0x100)]] + list("\u2028\u200b\ufeff\u0130\u017f\u212a\U0001f600") + ["--", "::", "md:", "-md-", "{", "__"]
    cs = [c for c in cs if not c.isspace()]
    for i, c in enumerate(cs):
        for j, t in enumerate(("ab", "a", "flex")):
            like = [t + c, c + t, t + c + "x", "x" + c + t, t + c + t, t[:1] + c + t[1:], "x" + c + t + c + "y", c]
            like = [x for x in dict.fromkeys(like) if x != t]
            if j == 0:
                like += [t.upper(), t.title(), t[:-1], t + t, t[::-1]]
            html = (i + j) % 4 == 3
            cls = {"toks": [[x, 0] for x in like[: len(like) // 2] + [t] + like[len(like) // 2 :]], "ws": [" "], "pad": 0, "html": html, "via": i % 4}
            pad = ["", "", " "]
            for k, (a, b) in enumerate(((t, like[(i + j) % len(like)]), (like[i % len(like)], t))):
                yield {"cls": cls, "style": None, "make": i % 5, "extra": 0, "ops": [["has", like + [t]], ["remove", a, 0, pad, 0], ["has", like + [t]], ["add", [a], bool((i + k) % 2), pad, True], ["remove", b, 0, pad, 0], ["has", like + [t]]]}


def cases_names(tier):
    """Every element, with every attribute beside."""
    for i, n in enumerate(names.NAMES):
        for k, l in enumerate(([], ["a"], ["a", "b", "a"], ["a-b", "a", "ab"])):
            cls = {"toks": [[x, 0] for x in l], "ws": [" ", "\n"], "pad": i % 4, "html": (i + k) % 3 == 0, "via": (i + k) % 4}
            pad = ["", "", " "]
            yield {"cls": cls if l else None, "style": [None, ["s", "x:y;"]][(i + k) % 2], "make": n, "extra": k % 2, "ops": [["add", ["c"], False, pad, True], ["remove", "a", 0, pad, 0], ["add", ["d", "a"], True, pad, False], ["remove", "c", 0, pad, 0], ["remove_all"], ["add", ["z"], False, pad, False]]}


def test_beside(case, ctx):
    """class and style operations next to every other attribute: it keeps its value and its place."""
    nm, i = case["name"], case["i"]
    for k, a in enumerate(names.ATTRS):
        an = gen.norm_name(a)
        if an in ("class", "style"):
            continue
        v = ["v", "", "a b", "class"][(i + k) % 4]
        t = Tag(nm, {"class": "x y", a: v, "style": "p:q;"}) if k % 2 else Tag(nm, {a: v})
        has = bool(k % 2)
        t.add_class("n").remove_class("x").add_style("r:s;").add_class("m", prepend=True).add_style("o:p;", prepend=True).remove_class("q")
        expect_eq(dict(t.attrs), {"class": "m y n", an: v, "style": "o:p; p:q; r:s;"} if has else {an: v, "class": "m n", "style": "o:p; r:s;"}, f"operations on a tag with {an}")
        expect_eq([t.has_class(c) for c in ("m", "n", "y", "x", "v", an)], [True, True, has, False, False, an in ("m", "n") or has and an == "y"], f"has_class() of a tag with {an}")
        t.remove_class("m").remove_class("n").remove_class("y")
        expect_eq(dict(t.attrs), {an: v, "style": "o:p; p:q; r:s;" if has else "o:p; r:s;"}, f"all classes removed from a tag with {an}")
    ctx.nontrivial()


CHECKS = [
    Check("tokens that look alike", test_history, cases=cases_close),
    Check("every element", test_history, cases=cases_names),
    Check("beside every attribute", test_beside, cases=names.cases),
    Check("small class lists", test_history, cases=cases_small),
    Check("histories", test_history, strategy=strat_history, quick=700, thorough=40000),
    Check("css()", test_css, strategy=strat_css, quick=500, thorough=20000),
]
