"""C20 JSX components convert purely and surface all dependencies."""
import json
import os
import re

from hypothesis import strategies as st

import htmltools
from htmltools import HTMLDependency, HTMLDocument, MetadataNode, Tag, TagList
from htmltools._jsx import JSXTag, jsx, jsx_tag_create
from vfw import gen, js, names, nest
from vfw.build import Meta, as_str, build
from vfw.core import Check, expect, expect_eq, fail
from vfw.deps import dep_spec, objects, snap
from vfw.htmltok import tokens

# node specs
#  ["t", str] ["n", number] ["N"] ["j", str] (jsx() as a child: its text)  ["m", key] ["d", dep] ["hc", nodes]
#  ["g", name, ws, attrs, kids] attrs: [[raw, ["s", str] | ["v", scalar] | ["j", expr]]]
#  ["J", name, props, kids, how] ["x"|"C", "one"|"list", nodes] (tagifiable; C hands out one object) ["S", i] shared object
#  ["L"|"U"|"T", nodes]
# prop values: ["s", str] ["v", scalar] ["j", expr] ["l"|"u", vals] ["o", [[key, val]]] or a node g J T x C S


class Exp:
    def __init__(self, kind, nodes, pool):
        self.kind, self.nodes, self.pool = kind, nodes, pool

    def make(self):
        xs = [mk(n, self.pool) for n in self.nodes]
        return xs[0] if self.kind == "one" else TagList(*xs)

    def tagify(self):
        nest.work()
        return self.make()


class CachedExp:
    def __init__(self, result):
        self.result = result

    def tagify(self):
        nest.work()
        return self.result


def expression(s):
    """jsx(s), sometimes put together from parts: jsx() + jsx() is a jsx() again, several arguments are lines."""
    k = len(s) % 4
    if k == 1 and len(s) > 1:
        h = len(s) // 2
        return jsx(s[:h]) + jsx(s[h:])
    if "\n" in s:
        return jsx(*s.split("\n"))
    return jsx(s) if k != 2 else jsx("") + jsx(s)


def attrval(v):
    return expression(v[1]) if v[0] == "j" else propval(v, ()) if v[0] == "nv" else as_str(v[1])


class SubInt(int):
    pass


class SubFloat(float):
    pass


class SubList(list):
    pass


class SubDict(dict):
    pass


class SubTuple(tuple):
    pass


def propval(v, pool):
    k = v[0]
    if k == "nv":
        return SubInt(v[1]) if isinstance(v[1], int) else SubFloat(v[1])
    if k == "sl":
        return SubList(propval(y, pool) for y in v[1])
    if k == "su":
        return SubTuple(propval(y, pool) for y in v[1])
    if k == "so":
        return SubDict({as_str(a): propval(y, pool) for a, y in v[1]})
    if k in "sv":
        return as_str(v[1])
    if k == "j":
        return expression(v[1])
    if k == "l":
        return [propval(y, pool) for y in v[1]]
    if k == "u":
        return tuple(propval(y, pool) for y in v[1])
    if k == "o":
        return {as_str(a): propval(y, pool) for a, y in v[1]}
    return mk(v, pool)


def add_children(x, kids, how):
    if how == "append":
        for c in kids:
            x.append(c)
    elif how == "append_all":
        if kids:
            x.append(*kids)
    elif how == "extend":
        x.extend(kids)
    elif how == "insert":
        for c in reversed(kids):
            x.children.insert(0, c)
    elif how == "kids_extend":
        x.children.extend(kids)
    elif how == "iadd":
        x.children += kids
    else:
        raise ValueError(how)


def mk(n, pool=()):
    k = n[0]
    if k == "J":
        props = {a: propval(v, pool) for a, v in n[2]}
        kids = [mk(c, pool) for c in n[3]]
        how = n[4]
        if how == "init":
            return JSXTag(n[1], *kids, **props)
        if how == "create":
            return jsx_tag_create(n[1])(*kids, **props)
        if how == "half":
            x = jsx_tag_create(n[1])(*kids[: len(kids) // 2], **props)
            x.extend(kids[len(kids) // 2 :])
            return x
        if how == "update":
            x = jsx_tag_create(n[1])(*kids)
            x.attrs.update(props)
            return x
        if how == "setitem":
            x = jsx_tag_create(n[1])(*kids)
            for a, v in props.items():
                x.attrs[a] = v
            return x
        x = jsx_tag_create(n[1])(**props)
        add_children(x, kids, how)
        return x
    if k == "g":
        return Tag(n[1], *[{a: attrval(v)} for a, v in n[3]], *[mk(c, pool) for c in n[4]], _add_ws=n[2])
    if k == "x":
        return Exp(n[1], n[2], pool)
    if k == "C":
        return CachedExp(Exp(n[1], n[2], pool).make())
    if k == "S":
        return pool[n[1] % len(pool)] if pool else "nopool"
    if k == "j":
        return jsx(n[1])
    if k == "L":
        return [mk(c, pool) for c in n[1]]
    if k == "U":
        return tuple(mk(c, pool) for c in n[1])
    if k == "T":
        return TagList(*[mk(c, pool) for c in n[1]])
    return build(n)


# ------------------------------------------------------------------------------ the model
def m_kids(nodes, pool):
    out = []
    for n in nodes:
        k = n[0]
        if k in "tj":
            out.append(("str", n[1]))
        elif k == "n":
            out.append(("str", str(n[1])))
        elif k in ("N", "d", "m", "hc"):
            pass
        elif k in "LUT":
            out += m_kids(n[1], pool)
        elif k in "xC":
            out += m_kids(n[2], pool)
        elif k == "S":
            out += m_kids([pool[n[1] % len(pool)]] if pool else [["t", "nopool"]], ())
        else:
            out.append(m_el(n, pool))
    return out


def m_el(n, pool):
    props = {}
    if n[0] == "g":
        for a, v in n[3]:
            x = v[1]
            if v[0] in ("v", "nv"):
                if x is None or x is False:
                    continue
                x = "" if x is True else str(x)
            nm = gen.norm_name(a)
            d = ("raw", x) if v[0] == "j" else ("str", x)
            if nm == "style" and v[0] != "j":
                d = m_css(x)
            props[nm] = d
        return ("el", "html", n[1], props, m_kids(n[4], pool))
    for a, v in n[2]:
        nm = gen.norm_name(a)
        if nm == "style" and v[0] == "s":
            props[nm] = m_css(v[1])
        else:
            props[nm] = m_val(v, pool)
    return ("el", "comp", n[1], props, m_kids(n[3], pool))


def m_css(s):
    d = {}
    for part in s.split(";"):
        if ":" in part:
            a, b = part.split(":", 1)
            d[a.strip()] = ("css", b.strip())
    return ("obj", d)


def m_val(v, pool):
    k = v[0]
    if k == "s":
        return ("str", v[1])
    if k == "nv":
        return ("num", v[1])
    if k == "v":
        x = v[1]
        if x is None:
            return ("null",)
        return ("bool", x) if isinstance(x, bool) else ("num", x)
    if k == "j":
        return ("raw", v[1])
    if k in ("l", "u", "sl", "su"):
        return ("arr", [m_val(y, pool) for y in v[1]])
    if k in ("o", "so"):
        return ("obj", {str(a): m_val(y, pool) for a, y in v[1]})
    if k == "T":
        # a jsx() among children is text, among values it is an expression; here either will do
        return ("arr", [r for n in flat(v[1], pool) for r in ([("jsx", n[1])] if n[0] == "j" else m_kids([n], pool))])
    if k in "xC":
        if v[1] == "list":
            return ("arr", m_kids(v[2], pool))
        r = m_kids(v[2], pool)
        return r[0] if r else ("any",)  # how a metadata node reads as a value is not specified
    if k == "S":
        return m_val(pool[v[1] % len(pool)], ()) if pool else ("str", "nopool")
    if k in "gJ":
        return m_el(v, pool)
    if k in "tj":
        return ("str", v[1])
    return ("any",)


def m_meta(x, pool, out):
    """Snapshots of the metadata nodes anywhere below a node or value spec."""
    k = x[0]
    if k in ("d", "m", "hc"):
        out.append(json.dumps(snap(build(x)), default=str))
    elif k == "g":
        for c in x[4]:
            m_meta(c, pool, out)
    elif k == "J":
        for _, v in last_props(x[2]):
            m_meta(v, pool, out)
        for c in x[3]:
            m_meta(c, pool, out)
    elif k in "xC":
        for c in x[2]:
            m_meta(c, pool, out)
    elif k in ("sl", "su") or k in "LUTlu":
        for c in x[1]:
            m_meta(c, pool, out)
    elif k in ("o", "so"):
        for _, c in x[1]:
            m_meta(c, pool, out)
    elif k == "S" and pool:
        m_meta(pool[x[1] % len(pool)], (), out)
    return out


def last_props(props):
    d = {}
    for a, v in props:
        d[gen.norm_name(a)] = v
    return list(d.items())


def names_of(m, out):
    if m[0] == "el":
        if m[1] == "comp":
            out.add(m[2])
        for v in m[3].values():
            names_of(v, out)
        for c in m[4]:
            names_of(c, out)
    elif m[0] == "arr":
        for c in m[1]:
            names_of(c, out)
    elif m[0] == "obj":
        for c in m[1].values():
            names_of(c, out)
    return out


def same_num(x, v):
    try:
        return repr(float(x)) == repr(float(v)) or float(x) == float(v)
    except (OverflowError, ValueError):
        return False


def match(m, d, where, text):
    """The description d of emitted JavaScript against the model m. text: parsed (not executed) form."""
    k = m[0]

    def bad(why):
        fail(f"the emitted expression does not mirror the component at {where}: {why}", got=d, want=m)

    if k == "any":
        return
    if k == "raw":
        if text:
            s = d.get("src")
            if s is None or s.strip() != m[1].strip():
                bad("jsx() expression")
        else:
            w = RAWVAL[m[1]]
            g = {a: b for a, b in d.items()}
            if g != w:
                bad("value of the jsx() expression")
        return
    if k in ("str", "css"):
        if d["k"] != "str":
            bad("a string is expected")
        if (d["v"].strip() if k == "css" else d["v"]) != m[1]:
            bad("text differs")
        if text and d["q"] != '"':
            bad("not a double-quoted literal")
        return
    if k == "jsx":
        if not text:
            return
        return match(("str", m[1]) if d["k"] == "str" and d["v"] == m[1] else ("raw", m[1]), d, where, text)
    if k == "null":
        if d["k"] != "null":
            bad("null is expected")
        return
    if k == "bool":
        if d["k"] != "bool" or d["v"] is not m[1]:
            bad("a boolean is expected")
        return
    if k == "num":
        if d["k"] != "num" or not same_num(m[1], d["v"]):
            if not (text and d["k"] == "src"):  # an expression; judged when executed
                bad("a number is expected")
        return
    if k == "arr":
        if d["k"] != "arr" or len(d["v"]) != len(m[1]):
            bad("an array is expected")
        for i, (a, b) in enumerate(zip(m[1], d["v"])):
            match(a, b, f"{where}[{i}]", text)
        return
    if k == "obj":
        if d["k"] != "obj":
            bad("an object is expected")
        keyed(m[1], d["v"], where, text, bad)
        return
    if d["k"] != "el" or d.get("html" if m[1] == "html" else "comp") != m[2]:
        bad("another element is expected")
    keyed(m[3], d["props"], where + "<" + m[2] + ">", text, bad)
    if len(d["kids"]) != len(m[4]):
        bad(f"{len(m[4])} children are expected")
    for i, (a, b) in enumerate(zip(m[4], d["kids"])):
        match(a, b, f"{where}<{m[2]}>/{i}", text)


def keyed(want, got, where, text, bad):
    ks = [a for a, _ in got]
    if any(a is None for a in ks):
        bad("unexpected property form")
    css = any(v[0] == "css" for v in want.values())
    if css:
        ks = [a.strip() for a in ks]
    if len(set(ks)) != len(ks):
        bad("a property is given twice")
    if set(ks) != set(want):
        bad("other properties are expected")
    for a, (_, v) in zip(ks, got):
        match(want[a], v, f"{where}.{a}", text)


# ------------------------------------------------------------------------------- snapshots
def jsnap(x, seen=None):
    """Structure and identity of everything reachable."""
    if isinstance(x, JSXTag):
        return ("JSX", id(x), type(x).__name__, x.name, id(x.attrs), [(k, jsnap(v)) for k, v in x.attrs.items()], jsnap(x.children), sorted(vars(x)))
    if isinstance(x, Tag):
        return ("Tag", id(x), type(x).__name__, x.name, x.add_ws, id(x.attrs), [(k, type(v).__name__, str(v)) for k, v in x.attrs.items()], jsnap(x.children))
    if isinstance(x, TagList):
        return ("TagList", id(x), [jsnap(c) for c in x])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, id(x), [jsnap(c) for c in x])
    if isinstance(x, dict):
        return ("dict", id(x), [(k, jsnap(v)) for k, v in x.items()])
    if isinstance(x, CachedExp):
        return ("Cached", id(x), jsnap(x.result))
    if isinstance(x, Exp):
        return ("Exp", id(x), jsnap(x.pool), len(vars(x)))
    if isinstance(x, MetadataNode):
        return ("meta", id(x), snap(x))
    if isinstance(x, (str, int, float, bool)) or x is None:
        return (type(x).__name__, repr(x))
    return ("other", id(x), type(x).__name__)


_SCRIPT = re.compile(r"<script(?=[ >])[^>]*\sdata-needs-render[^>]*>(.*?)</script(?=[\s/>])", re.S | re.I)


def script_of(html):
    """Texts of the component scripts, ended where an HTML parser ends them."""
    texts = _SCRIPT.findall(html)
    for t in texts:
        i = t.find("<!--")
        if i >= 0 and "<script" in t[i:].lower():
            fail("the script is not ended by its end tag (escaped state)", script=t)
    return texts


# ---------------------------------------------------------------------------------- checks
def read_and_match(text, model, memo):
    key = text
    if key in memo:
        return
    r = js.read(text, names_of(model, set()))
    if r.get("error"):
        fail("the emitted script is not valid JavaScript", error=r["error"], script=text)
    if r["calls"] != 1:
        fail("the script does not have one ReactDOM.render() call", script=text)
    match(model, r["expr"], "", True)
    runs = r["run"]["rendered"]
    expect(len(runs) == 1, "the script does not render once", got=r["run"])
    match(model, runs[0][0], "", False)
    memo[key] = True


def check_react(deps):
    for want, fn in (("react", None), ("react-dom", None)):
        ds = [d for d in deps if d.name == want]
        expect(len(ds) >= 1, f"the {want} dependency is missing", got=[d.name for d in deps])
        for d in ds:
            expect(bool(d.script), f"the {want} dependency has no script")
            src = d.source_path_map()["source"]
            for s in d.script:
                p = os.path.join(src, s["src"])
                expect(os.path.isfile(p) and os.path.getsize(p) > 0, f"script file of {want} is missing", path=p)


def check_meta(holder_objs, deps, expected, what):
    got = {json.dumps(snap(o), default=str) for k, o in holder_objs.values() if isinstance(o, MetadataNode)}
    names = {json.dumps(snap(d), default=str) for d in deps}
    exp = set(expected)
    miss = [e for e in exp if e not in got]
    expect(not miss, f"{what}: metadata nodes of the component are missing", missing=miss[:4])
    dm = [e for e in exp if e.startswith('["dep"') and e not in names]
    expect(not dm, f"{what}: get_dependencies() lacks dependencies of the component", missing=dm[:4])
    extra = [g for g in got | names if g not in exp and not re.match(r'\["dep", "HTMLDependency", "react(-dom)?", ', g)]
    expect(not extra, f"{what}: metadata nodes from nowhere", extra=extra[:4])


CONV = ["tagify", "str", "repr", "_repr_html_", "doc", "list_tagify", "div_str", "list_render", "div_tagify", "deps"]


def convert(x, how, model, expected, memo):
    text = None
    if how in ("str", "repr", "_repr_html_"):
        html = {"str": str, "repr": repr, "_repr_html_": lambda y: y._repr_html_()}[how](x)
        expect(type(html) is str, f"{how}() is not a str")
        if not (html.startswith("<script") and html.endswith("</script>")):
            fail(f"{how}() is not one <script> element", got=html)
        toks = list(tokens(html, raw=("script",)))
        expect([t[0] for t in toks if t[0] != "text"] == ["open", "close"], f"{how}() is not one <script> element", got=html)
        texts = script_of(html)
    elif how == "tagify":
        t = x.tagify()
        expect(type(t) is Tag and t.name == "script", "tagify() does not give a <script> tag", got=type(t))
        check_react(t.get_dependencies())
        check_meta(objects(t), t.get_dependencies(dedup=False), expected, "tagify()")
        texts = script_of(str(t))
    elif how == "list_tagify":
        t = TagList("a", x, "b").tagify()
        sc = [c for c in t if isinstance(c, Tag)]
        expect(len(t) == 3 and len(sc) == 1 and sc[0].name == "script", "TagList.tagify() does not hold one <script>", got=[type(c) for c in t])
        check_meta(objects(t), t.get_dependencies(dedup=False), expected, "TagList.tagify()")
        texts = script_of(str(sc[0]))
    elif how == "div_tagify":
        t = Tag("div", x).tagify()
        check_meta(objects(t), t.get_dependencies(dedup=False), expected, "div(component).tagify()")
        texts = script_of(str(t))
    elif how == "div_str":
        texts = script_of(str(Tag("div", x, "tail")))
    elif how in ("doc", "list_render", "deps"):
        r = HTMLDocument(x).render() if how == "doc" else TagList(x).render() if how == "list_render" else {"html": str(x), "dependencies": Tag("p", x).tagify().get_dependencies()}
        have = {d.name for d in r["dependencies"]}
        want = {json.loads(e)[2] for e in expected if e.startswith('["dep"')} | {"react", "react-dom"}
        expect(have == want, f"{how}: the dependencies are not those of the component", got=sorted(have), want=sorted(want))
        texts = script_of(r["html"])
    else:
        raise ValueError(how)
    expect(len(texts) == 1, f"{how}: {len(texts)} script elements with the component", got=texts)
    if "('any',)" not in repr(model):
        read_and_match(texts[0], model, memo)


def nested(x, out):
    """Components reachable through children and prop values (not through expansions)."""
    if isinstance(x, JSXTag):
        out.append(x)
        for v in x.attrs.values():
            nested(v, out)
        nested(x.children, out)
    elif isinstance(x, Tag):
        nested(x.children, out)
    elif isinstance(x, (list, tuple)):
        for c in x:
            nested(c, out)
    elif isinstance(x, dict):
        for c in x.values():
            nested(c, out)
    return out


def flat(nodes, pool):
    """Stored children of a child list (spec level)."""
    out = []
    for n in nodes:
        if n[0] in "LUT":
            out += flat(n[1], pool)
        elif n[0] != "N":
            out.append(n)
    return out


def test_component(case, ctx):
    spec = json.loads(json.dumps(case["comp"]))
    pspec = case["pool"]
    pool = [mk(n) for n in pspec]
    x = mk(spec, pool)
    roots = [x, pool]
    spec[3] = flat(spec[3], pspec)
    memo = {}
    nconv = 0
    for step in case["steps"]:
        k = step[0]
        if k in ("conv", "sub"):
            before = jsnap(roots)
            if k == "sub":
                subs = nested(x, [])
                str(subs[step[1] % len(subs)]) if step[2] == "str" else subs[step[1] % len(subs)].tagify()
                what = "converting a nested component"
            else:
                model = m_el(spec, pspec)
                expected = m_meta(spec, pspec, [])
                convert(x, step[1], model, expected, memo)
                nconv += 1
                what = step[1]
            after = jsnap(roots)
            if after != before:
                fail(f"{what} changed the component or something reachable from it", before=before, after=after)
            continue
        memo = {}
        if k == "append":
            if step[1]:
                x.append(*[mk(n, pool) for n in step[1]])
            spec[3] += flat(step[1], pspec)
        elif k == "extend":
            x.extend([mk(n, pool) for n in step[1]])
            spec[3] += flat(step[1], pspec)
        elif k == "insert":
            i = step[1] % (len(x.children) + 1)
            x.children.insert(i, mk(step[2], pool))
            spec[3][i:i] = flat([step[2]], pspec)
        elif k == "set":
            x.attrs[step[1]] = propval(step[2], pool)
            spec[2].append([step[1], step[2]])
        elif k == "update":
            x.attrs.update({a: propval(v, pool) for a, v in step[1]})
            spec[2] += step[1]
    # at the end, whatever was done
    before = jsnap(roots)
    convert(x, "tagify", m_el(spec, pspec), m_meta(spec, pspec, []), {})
    convert(x, "str", m_el(spec, pspec), m_meta(spec, pspec, []), memo)
    if jsnap(roots) != before:
        fail("conversion changed the component or something reachable from it", before=before, after=jsnap(roots))
    t1, t2 = x.tagify(), x.tagify()
    if "('any',)" in repr(m_el(spec, pspec)):  # unspecified, such as an object's repr()
        ctx.label("metadata node as a value")
    else:
        if not has_kind(spec, pspec, {"m"}):
            expect(t1 == t2, "two conversions are not equal")
        expect(str(t1) == str(t2) == str(x), "two conversions differ")
    ex = m_meta(spec, pspec, [])
    ctx.nontrivial(nconv >= 1 and (bool(ex) or has_kind(spec, pspec, {"x", "C", "J"}, top=False)))
    for lab, ks in (("tagifiable", {"x"}), ("cached tagifiable", {"C"}), ("nested component", {"J"}), ("dependency", {"d", "hc", "m"}), ("shared object", {"S"}), ("list or dict prop", {"l", "u", "o"}), ("jsx", {"j"}), ("TagList prop or child", {"T"})):
        if has_kind(spec, pspec, ks, top=False):
            ctx.label(lab)
    if any(s[0] not in ("conv", "sub") for s in case["steps"]):
        ctx.label("changed between conversions")


def has_kind(x, pool, kinds, top=True):
    if not isinstance(x, list):
        return False
    if top and x and isinstance(x[0], str) and x[0] in kinds:
        return True
    return any(has_kind(y, pool, kinds) for y in x) or (top is False and any(has_kind(p, (), kinds) for p in pool))


# ------------------------------------------------------------------------------ generators
BADCH = re.compile("[\\\\\n\r\x0b\x0c\x1c-\x1e\x85\u2028\u2029\ud800-\udfff]")


def clean(s):
    return BADCH.sub("", s)


STR = gen.weighted((3, gen.SHORT.map(clean)), (2, gen.TEXT.map(clean)), (2, st.sampled_from(["</script>", "</SCRIPT >", "<!--", "<!-- <script>", '"', '""', 'a "q" b', "'", "`", "${x}", "//", "/*", "*/", "</", "<", "null", "true", "1", "", " ", "React.createElement(", "<b>x</b>", "&amp;", "a:b;c", "{", "}", '",', "a;b:c"])))
RAWVAL = {
    "() => 1": {"k": "fn"}, "function() { return \"</div>\"; }": {"k": "fn"}, "1 + 2": {"k": "num", "v": "3"}, "`tpl`": {"k": "str", "v": "tpl"}, "[1, 'a']": {"k": "arr", "v": [{"k": "num", "v": "1"}, {"k": "str", "v": "a"}]},
    "{a: 1}": {"k": "obj", "v": [["a", {"k": "num", "v": "1"}]]}, "null": {"k": "null"}, "true": {"k": "bool", "v": True}, "'sq'": {"k": "str", "v": "sq"}, '"dq" + \'\\\\\'': {"k": "str", "v": "dq\\"},
    "undefined": {"k": "undef"}, "-1": {"k": "num", "v": "-1"}, "x => x > 1 && x < 2": {"k": "fn"}, "function f() {\n  return 1;\n}": {"k": "fn"}, "'a\\nb'": {"k": "str", "v": "a\nb"}, "1 < 2 ? \"y\" : \"n\"": {"k": "str", "v": "y"},
    "NaN": {"k": "num", "v": "NaN"}, "\"\\u0041\"": {"k": "str", "v": "A"},
}
RAWEXPR = st.sampled_from(sorted(RAWVAL))
COMP = gen.weighted((4, st.sampled_from(["Foo", "Bar", "Baz"])), (2, st.sampled_from(["Foo.Sub", "A", "X1", "Ns.Inner.Deep", "MyWidget", "Über", "A_b", "$X.Y", "_X", "ui.Button", "lib.core.Foo", "Tag", "Script", "Fragment", "HTML"])))
HNAME = gen.weighted((5, st.sampled_from(["div", "span", "p", "br", "ul", "a", "my-elem", "svg", "input", "foreignObject", "linearGradient", "script", "style", "b"])), (1, st.sampled_from(gen.HTML_NAMES)))
PNAME = gen.weighted((5, st.sampled_from(["id", "class_", "className", "onClick", "data_x", "x", "x_", "x__", "a_b", "children", "key", "ref", "value", "for_", "aria_label", "style", "style_", "None_", "name", "cls", "args", "kwargs", "indent", "type", "_x", "list", "dict", "x-y", "é", "a_b_c_d", "data_a_b_c_", "a__b__c", "_a_b_", "___x", "aB_Cd_Ef_Gh"])),
                     (1, st.from_regex(r"[a-zA-Z_][a-zA-Z0-9_]{0,6}", fullmatch=True)), (1, st.text(st.sampled_from("ab_-X"), min_size=1, max_size=12)), (1, st.lists(st.sampled_from(["data", "_", "aria", "_described", "By", "_x_", "on", "Click", "-"]), min_size=3, max_size=9).map("".join)), (1, STR.map(lambda s: s[:8])))
PNAME = PNAME.filter(lambda s: s not in ("self", "_name", "allowedProps", "__proto__") and gen.norm_name(s) not in ("__proto__",))
HATTR = gen.weighted((5, st.sampled_from(["id", "class", "href", "data_x", "title", "for_", "onclick", "alt", "style"])), (1, PNAME))
NUM = st.one_of(st.integers(-5, 300), st.integers(-(10**30), 10**30), st.floats(allow_nan=True, allow_infinity=True), st.sampled_from([0, 1, -1, 0.1, 1e21, 1e22, 1e-7, 2**53, 5e-324, 1.7e308]))
SCALAR = gen.weighted((1, NUM.map(lambda v: ["nv", v])), (3, NUM.map(lambda v: ["v", v])), (2, st.sampled_from([["v", None], ["v", True], ["v", False], ["v", 0], ["v", 1], ["v", 1.0], ["v", ""]]).filter(lambda v: v[1] != "" or v[1] is False or isinstance(v[1], (int, float)))))
CSS = st.lists(st.tuples(st.sampled_from(["color", "margin", "marginTop", "background", "--x", "font-family"]), st.sampled_from(["red", "1rem", "url(http://x/y.png)", "a b", "0", "'q'", '"dq"', "calc(1px + 2px)", "</script>", "1px !important"])), max_size=3).map(
    lambda l: ["s", ";".join(f"{a}:{b}" for a, b in l)])
CSSNAME = gen.weighted((2, st.sampled_from(["color", "margin", "--x", "WebkitX", "é", "x_y", "0"])), (1, st.from_regex(r"[a-zA-Z_\-][a-zA-Z0-9_\-]{0,9}", fullmatch=True)), (1, STR.map(lambda s: re.sub(r"[\s:;]", "", s)[:6] or "n"))).filter(lambda s: s != "__proto__")
CSSVAL = gen.weighted((2, st.sampled_from(["", "red", "a:b:c", "é", "'日本'", "!important", "url(data:x)", "<b>", '"'])), (2, STR.map(lambda s: s.replace(";", "").strip())))
CSS3 = st.lists(st.tuples(CSSNAME, CSSVAL, st.sampled_from(["", "", " "])), max_size=5, unique_by=lambda t: t[0]).map(lambda l: ["s", ";".join(f"{w}{a}:{w}{b}" for a, b, w in l)])
CSS2 = st.lists(st.tuples(st.sampled_from(["color", "margin"]), st.sampled_from(["red", "1rem", "http://x:8080"])), min_size=1, max_size=2, unique_by=lambda t: t[0]).map(lambda l: ["s", "; ".join(f"{a}: {b}" for a, b in l) + ";"])


def unique_norm(l):
    seen, out = set(), []
    for a, v in l:
        k = gen.norm_name(a)
        if k in seen or k == "":
            continue
        seen.add(k)
        out.append([a, v])
    return out


# dependency specs without things whose value JSON cannot carry
DEP = st.tuples(dep_spec(local=None), st.integers(0, 3)).map(lambda t: ["d", t[0]])
META = gen.weighted((5, DEP), (1, st.integers(0, 5).map(lambda i: ["m", i])), (1, st.lists(st.sampled_from([["t", "hc"], ["g", "title", False, [], [["t", "T"]]]]), min_size=1, max_size=2).map(lambda l: ["hc", l])))
LEAF = gen.weighted((5, STR.map(lambda s: ["t", s])), (1, NUM.filter(lambda v: v == v).map(lambda v: ["n", v])), (1, st.just(["N"])), (1, gen.weighted((1, RAWEXPR.filter(lambda s: not BADCH.search(s))), (1, STR)).map(lambda s: ["j", s])), (4, META))


@st.composite
def _hattrs(draw):
    out = []
    for _ in range(draw(st.integers(0, 3))):
        a = draw(HATTR)
        if gen.norm_name(a) == "style":
            v = draw(gen.weighted((1, CSS), (1, CSS3), (1, CSS2), (1, RAWEXPR.map(lambda s: ["j", s]))))
        else:
            v = draw(gen.weighted((4, STR.map(lambda s: ["s", s])), (1, SCALAR), (1, RAWEXPR.map(lambda s: ["j", s]))))
        out.append([a, v])
    return unique_norm(out)


def nojsx(nodes):
    return [["t", n[1]] if n[0] == "j" else [n[0], nojsx(n[1])] if n[0] in "LUT" else n for n in nodes]


@st.composite
def _val(draw, depth, budget, shared):
    k = draw(st.integers(0, 13))
    budget[0] -= 1
    if k < 3 or budget[0] <= 0:
        return draw(gen.weighted((3, STR.map(lambda s: ["s", s])), (3, SCALAR), (1, RAWEXPR.map(lambda s: ["j", s]))))
    if depth <= 0:
        return draw(gen.weighted((1, SCALAR), (2, STR.map(lambda s: ["g", "i", True, [], [["t", s]]])), (1, META.map(lambda m: ["J", "Leaf", [], [m], "init"]))))
    if k < 6:
        return ["g", draw(HNAME), draw(st.booleans()), draw(_hattrs()), draw(_kids(depth - 1, budget, shared))]
    if k < 8:
        return draw(_comp(depth - 1, budget, shared))
    if k == 8:
        return ["T", nojsx(draw(_kids(depth - 1, budget, shared)))]
    if k == 9:
        return draw(_exp(depth - 1, budget, shared))
    if k == 10 and shared:
        return ["S", draw(st.integers(0, shared - 1))]
    if k == 11:
        return [draw(st.sampled_from(["l", "l", "u", "u", "sl", "su"])), [draw(_val(depth - 1, budget, shared)) for _ in range(draw(st.integers(0, 3)))]]
    if k == 12:
        ks = draw(st.lists(gen.weighted((3, st.sampled_from(["a", "b", "c d", "style", "0", "1", "x_y", "é", 'q"q', "</script>", "class_", "_a", "__b", "_", "$", 7, -1, 2.5, "a.b", "A-B_C", "toString"])), (1, STR)), max_size=draw(st.sampled_from([3, 3, 5, 9])), unique_by=str))
        return [draw(st.sampled_from(["o", "o", "o", "so"])), [[a, draw(_val(depth - 1, budget, shared))] for a in ks if a != "__proto__"]]
    return draw(gen.weighted((1, SCALAR), (1, RAWEXPR.map(lambda s: ["j", s]))))


@st.composite
def _exp(draw, depth, budget, shared):
    kind = draw(st.sampled_from(["one", "list", "list"]))
    kids = []
    for n in draw(_kids(depth, budget, shared)):
        # by contract what tagify() returns holds no tagifiable objects of its own (components excepted)
        if n[0] in ("t", "d", "m", "g", "J", "hc"):
            kids.append(n)
    if kind == "one" and not kids:
        kids = [draw(META)]
    return [draw(st.sampled_from("xxC")), kind, kids[:1] if kind == "one" else kids]


@st.composite
def _node(draw, depth, budget, shared):
    k = draw(st.integers(0, 11))
    budget[0] -= 1
    if k < 4 or depth <= 0 or budget[0] <= 0:
        return draw(LEAF)
    if k < 7:
        return ["g", draw(HNAME), draw(st.booleans()), draw(_hattrs()), draw(_kids(depth - 1, budget, shared))]
    if k < 9:
        return draw(_comp(depth - 1, budget, shared))
    if k == 9:
        return draw(_exp(depth - 1, budget, shared))
    if k == 10 and shared:
        return ["S", draw(st.integers(0, shared - 1))]
    return [draw(st.sampled_from("LUT")), draw(_kids(depth - 1, budget, shared))]


@st.composite
def _kids(draw, depth, budget, shared):
    out = []
    for _ in range(draw(st.integers(0, 4))):
        if budget[0] <= 0:
            break
        out.append(draw(_node(depth, budget, shared)))
    return out


@st.composite
def _props(draw, depth, budget, shared):
    out = []
    for _ in range(draw(st.integers(0, 4))):
        a = draw(PNAME)
        out.append([a, draw(_propvalue(a, depth, budget, shared))])
    seen = {}
    for a, v in out:
        seen[a] = v
    return [[a, v] for a, v in seen.items()]


@st.composite
def _propvalue(draw, a, depth, budget, shared):
    if gen.norm_name(a) == "style":
        return draw(gen.weighted((1, CSS), (1, CSS3), (1, CSS2), (1, RAWEXPR.map(lambda s: ["j", s])), (1, st.lists(st.tuples(st.sampled_from(["color", "margin", "--x"]), gen.weighted((1, SCALAR), (1, STR.map(lambda s: ["s", s])))).map(list), max_size=2, unique_by=lambda t: t[0]).map(lambda l: ["o", l]))))
    return draw(_val(depth, budget, shared))


@st.composite
def _comp(draw, depth, budget, shared):
    how = draw(st.sampled_from(["init", "create", "create", "half", "update", "setitem", "append", "append_all", "extend", "insert", "kids_extend", "iadd"]))
    return ["J", draw(COMP), draw(_props(depth, budget, shared)), draw(_kids(depth, budget, shared)), how]


@st.composite
def _steps(draw, shared):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 9))
        b = [3]
        if k < 5:
            out.append(["conv", draw(st.sampled_from(CONV))])
        elif k == 5:
            out.append(["sub", draw(st.integers(0, 5)), draw(st.sampled_from(["str", "tagify"]))])
        elif k == 6:
            out.append([draw(st.sampled_from(["append", "extend"])), draw(_kids(1, b, shared))])
        elif k == 7:
            out.append(["insert", draw(st.integers(0, 6)), draw(_node(1, b, shared))])
        elif k == 8:
            a = draw(PNAME)
            out.append(["set", a, draw(_propvalue(a, 1, b, shared))])
        else:
            out.append(["update", draw(_props(1, b, shared))])
    return out


@st.composite
def strat_component(draw):
    shared = draw(st.integers(0, 2))
    pool = [draw(_node(2, [4], 0)) for _ in range(shared)]
    pool = [n if n[0] in ("g", "J", "x", "C", "d", "m") else ["g", "em", False, [], [n]] for n in pool]
    budget = [draw(st.integers(2, 14))]
    comp = draw(_comp(draw(st.integers(1, 4)), budget, shared))
    return {"pool": pool, "comp": comp, "steps": draw(_steps(shared))}


@st.composite
def strat_big(draw):
    """One dimension made large: depth, number of children, number of props, list length."""
    leaf = draw(gen.weighted((2, META), (1, STR.map(lambda s: ["t", s])), (1, _exp(1, [3], 0))))
    k = draw(st.integers(0, 4))
    n = draw(gen.sizes(5, 60, 10))
    if k == 0:
        x = leaf
        wraps = draw(st.lists(st.integers(0, 6), min_size=1, max_size=4))
        for i in range(min(n, 40)):
            w = wraps[i % len(wraps)]
            x = [["J", "W", [], [x], "create"], ["g", "div", True, [], [x]], ["J", "P", [["p", x if x[0] in "gJTxC" else ["g", "i", True, [], [x]]]], [], "create"], ["x", "one", [x]] if x[0] in ("t", "g", "J", "d", "m", "hc") else ["g", "u", True, [], [x]],
                 ["J", "L", [["p", ["l", [x if x[0] in "gJTxC" else ["g", "b", True, [], [x]]]]]], [["t", "k"]], "append"], ["J", "O", [["p", ["o", [["k", x if x[0] in "gJTxC" else ["g", "b", True, [], [x]]]]]]], [], "create"], ["T", [x]]][w]
        comp = ["J", "Top", [], [x], "create"]
    elif k == 1:
        comp = ["J", "Wide", [], [["t", str(i)] for i in range(n)] + [leaf] + [["J", "K", [], [], "create"]], draw(st.sampled_from(["create", "append", "insert", "iadd"]))]
    elif k == 2:
        comp = ["J", "Props", [[f"p{i}", ["v", i]] for i in range(n)] + [["last", ["g", "i", True, [], [leaf]]]], [leaf], "create"]
    elif k == 3:
        comp = ["J", "List", [["p", ["l", [["v", i] for i in range(n)] + [["g", "i", True, [], [leaf]]]]]], [], "create"]
    else:
        comp = ["J", "Many", [], [["J", "D", [["p", ["g", "i", True, [], [["d", {"name": f"n{i}", "version": "1"}]]]]], [["d", {"name": f"c{i}", "version": "1.0"}]], "create"] for i in range(min(n, 30))] + [leaf], "create"]
    return {"pool": [], "comp": comp, "steps": [["conv", draw(st.sampled_from(CONV))], ["conv", draw(st.sampled_from(CONV))]]}


# ------------------------------------------------------------------ every position, exhaustively
DEPX = ["d", {"name": "probe", "version": "1.5", "source": {"href": "u"}, "script": [{"src": "p.js"}]}]
HOLD = {  # ways to sit in a component, as (child wrapper)
    "child": lambda x: ["J", "C1", [], [["t", "a"], x, ["t", "b"]], "create"],
    "in tag": lambda x: ["J", "C1", [], [["g", "div", True, [], [x]]], "append"],
    "in deep tag": lambda x: ["J", "C1", [], [["g", "div", True, [], [["g", "p", True, [], [["g", "b", False, [], [x]]]]]]], "create"],
    "in component": lambda x: ["J", "C1", [], [["J", "C2", [["q", ["v", 1]]], [x], "create"]], "create"],
    "in tag prop": lambda x: ["J", "C1", [["p", ["g", "i", True, [], [x]]]], [], "create"],
    "in component prop": lambda x: ["J", "C1", [["p", ["J", "C2", [], [x], "create"]]], [["t", "z"]], "setitem"],
    "in nested prop": lambda x: ["J", "C1", [], [["g", "div", True, [], [["J", "C2", [["p", ["g", "i", True, [], [x]]]], [], "create"]]]], "create"],
    "in list prop": lambda x: ["J", "C1", [["p", ["l", [["v", 1], ["g", "i", True, [], [x]]]]]], [], "create"],
    "in tuple prop": lambda x: ["J", "C1", [["p", ["u", [["J", "C2", [], [x], "create"], ["v", None]]]]], [], "update"],
    "in dict prop": lambda x: ["J", "C1", [["p", ["o", [["k", ["g", "i", True, [], [x]]]]]]], [], "create"],
    "in list of dicts": lambda x: ["J", "C1", [["p", ["l", [["o", [["k", ["l", [["J", "C2", [], [x], "create"]]]]]]]]]], [], "create"],
    "in TagList prop": lambda x: ["J", "C1", [["p", ["T", [x, ["t", "e"]]]]], [], "create"],
    "expansion": lambda x: ["J", "C1", [], [["x", "one", [x]], ["t", "b"]], "create"],
    "expansion list": lambda x: ["J", "C1", [], [["x", "list", [["t", "a"], x, ["t", "b"]]]], "extend"],
    "cached expansion": lambda x: ["J", "C1", [], [["C", "list", [["g", "p", True, [], [x]], x]]], "create"],
    "expansion in tag": lambda x: ["J", "C1", [], [["g", "div", True, [], [["x", "one", [["g", "i", True, [], [x]]]]]]], "create"],
    "expansion prop": lambda x: ["J", "C1", [["p", ["x", "one", [["g", "i", True, [], [x]]]]]], [], "create"],
    "cached expansion prop": lambda x: ["J", "C1", [["p", ["C", "one", [["J", "C2", [], [x], "create"]]]]], [], "create"],
    "list expansion prop": lambda x: ["J", "C1", [["p", ["x", "list", [x, ["g", "i", True, [], []]]]]], [], "create"],
    "expansion in list prop": lambda x: ["J", "C1", [["p", ["l", [["x", "one", [["g", "i", True, [], [x]]]]]]]], [], "create"],
    "expansion in component in expansion": lambda x: ["J", "C1", [], [["x", "one", [["J", "C2", [], [["x", "list", [x]]], "create"]]]], "create"],
    "list child": lambda x: ["J", "C1", [], [["L", [["t", "a"], ["U", [x]]]]], "create"],
    "TagList child": lambda x: ["J", "C1", [], [["T", [x]]], "append"],
    "shared": lambda x: ["J", "C1", [["p", ["S", 0]]], [["S", 0], ["g", "div", True, [], [["S", 0]]]], "create"],
}
INNER = {
    "dep": DEPX, "meta": ["m", 3], "hc": ["hc", [["g", "title", False, [], [["t", "T"]]]]], "tag with dep": ["g", "u", True, [["id", ["s", "i"]]], [DEPX, ["t", "x"]]], "component with dep": ["J", "In", [["p", ["g", "i", True, [], [DEPX]]]], [DEPX], "create"],
    "expander": ["x", "list", [DEPX, ["t", "e"], ["g", "b", True, [], []]]], "cached": ["C", "one", [["g", "b", True, [], [DEPX]]]], "text": ["t", 'say "hi" </script>'], "string expander": ["x", "one", [["t", "es"]]], "jsx": ["j", "`q`"], "number": ["n", 3.5], "none": ["N"],
    "empty list expander": ["x", "list", []], "component": ["J", "In", [["x__", ["v", 2]], ["style", ["s", "color:red"]]], [["t", "k"]], "create"],
}


def cases_positions(tier):
    for hn, h in HOLD.items():
        for iname, inner in INNER.items():
            if "expansion" in hn and inner[0] not in ("t", "d", "m", "g", "J", "hc"):
                # only where a tag or component lies between
                if hn not in ("expansion in tag", "expansion prop", "expansion in component in expansion", "cached expansion prop", "expansion in list prop"):
                    continue
                if hn == "expansion in component in expansion":
                    continue
            pool = [["g", "em", True, [], [inner]]] if hn == "shared" else []
            for steps in ([["conv", "tagify"], ["conv", "tagify"], ["conv", "str"]], [["conv", "str"], ["append", [["t", "more"], DEPX]], ["conv", "doc"], ["set", "late", ["g", "s", True, [], [["m", 9]]]], ["conv", "list_tagify"], ["conv", "div_tagify"]], [["sub", 1, "str"], ["conv", "list_render"], ["conv", "div_str"], ["conv", "repr"], ["conv", "deps"]]):
                yield {"pool": pool, "comp": h(inner), "steps": steps}


VALUES = [["v", None], ["v", True], ["v", False], ["v", 0], ["v", 1], ["v", -1], ["v", 1.0], ["v", 0.5], ["v", -0.0], ["v", 1e300], ["v", 1e-300], ["v", 10**25], ["v", float("inf")], ["v", float("-inf")], ["v", float("nan")], ["v", 2**53 + 1],
          ["s", ""], ["s", "x"], ["s", '"'], ["s", 'a"b"c'], ["s", "</script>"], ["s", "</SCRIPT"], ["s", "<!--<script>"], ["s", "'"], ["s", "`${1}`"], ["s", "null"], ["s", "é😀"], ["s", "\t\x01"], ["s", "&lt;"], ["s", "a" * 500],
          ["l", []], ["u", []], ["o", []], ["l", [["v", None], ["v", True], ["s", '"'], ["v", 1]]], ["u", [["v", 1]]], ["l", [["l", []], ["o", []]]], ["o", [["a", ["v", None]], ['q"', ["s", '"']], ["</script>", ["v", False]]]], ["o", [["style", ["s", "a:b"]]]], ["o", [["x_y_", ["v", 1]]]]] + [["j", e] for e in sorted(RAWVAL)]
NAMES = ["p", "class_", "a_b_", "x__", "data_x", "style_x", "onClick", 'q"q', "é", "key", "_", "if_", "_a_", "A", "__", "a__b", "0", "x y"]


def cases_values(tier):
    for v in VALUES:
        for where in ("prop", "list", "dict", "nested"):
            w = v if where == "prop" else ["l", [v, v]] if where == "list" else ["o", [["k", v], ["z", ["v", 1]]]] if where == "dict" else ["J", "N", [["m", v], ["n", v]], [], "create"]
            yield {"pool": [], "comp": ["J", "V", [["p", w], ["q", ["v", 1]]], [], "create"], "steps": [["conv", "str"]]}
    for nm in NAMES:
        for how in ("init", "create", "update", "setitem"):
            yield {"pool": [], "comp": ["J", "V", [[nm, ["s", "v"]], ["other", ["v", 1]]], [], how], "steps": [["conv", "str"]]}
    for s in ["color:red", "color: red;", "a:b;c:d", "", ";", "x", "background:url(http://a.b:80/c)", "a:b;a:c", "--v:1;marginTop:0", ":", "a:"]:
        yield {"pool": [], "comp": ["J", "V", [["style", ["s", s]]], [["g", "div", True, [["style", ["s", s]]], []]], "create"], "steps": [["conv", "str"]]}
    for v in (["o", []], ["o", [["a", ["v", 1]]]], ["j", "{a: 1}"], ["o", [["a", ["j", "1 + 2"]]]]):
        yield {"pool": [], "comp": ["J", "V", [["style", v]], [], "create"], "steps": [["conv", "str"]]}
    for a, b in (("x_", "x"), ("x", "x_"), ("a_b", "a-b"), ("x__", "x-"), ("a-b_", "a_b")):
        yield {"pool": [], "comp": ["J", "V", [[a, ["v", 1]], [b, ["v", 2]]], [], "create"], "steps": [["conv", "str"]]}
    for how in ["init", "create", "half", "update", "setitem", "append", "append_all", "extend", "insert", "kids_extend", "iadd"]:
        yield {"pool": [], "comp": ["J", "V", [["p", ["v", 1]]], [["t", "1"], ["L", [["t", "2"], ["n", 3]]], ["g", "b", True, [], [["t", "4"]]], ["N"], ["T", [["t", "5"]]], ["J", "W", [], [["t", "6"]], how], ["j", "7"], ["x", "list", [["t", "8"], ["t", "9"]]], ["U", [DEPX, ["t", "10"]]]], how], "steps": [["conv", "str"], ["append", [["t", "11"]]], ["conv", "str"]]}


# --------------------------------------------------------------------------- allowed props
def test_allowed(case, ctx):
    allowed, props = case["allowed"], case["props"]
    outside = [a for a in props if allowed is not None and a not in allowed]
    kw = {a: 1 for a in props}
    for how in ("create", "class"):
        f = jsx_tag_create("Lim", allowedProps=list(allowed) if allowed is not None else None) if how == "create" else lambda *a, **k: JSXTag("Lim", *a, allowedProps=None if allowed is None else list(allowed), **k)
        if how == "create" and case.get("before"):
            f("first")  # the function is used more than once
        try:
            x = f("kid", **kw)
        except Exception as e:
            if not outside:
                fail("a component with allowed props only was rejected", error=e, allowed=allowed, props=props)
            continue
        if outside:
            fail("a prop outside the allow-list was accepted", allowed=allowed, props=props)
        expect_eq(dict(x.attrs), kw, "props of the component")
        read_and_match(script_of(str(x))[0], ("el", "comp", "Lim", {a: ("num", 1) for a in props}, [("str", "kid")]), {})
    ctx.nontrivial(allowed is not None and bool(props))
    ctx.label("rejected" if outside else "accepted")


PLAINP = ["a", "b", "c", "id", "onClick", "A", "aa", "x", "className"]


def cases_allowed(tier):
    import itertools

    for allowed in [None, [], ["a"], ["a", "b"], ["a", "b", "c"], ["aa"], ["A"], ["className", "id"], [""], ["abc"]]:
        for n in range(0, 4):
            for ps in itertools.combinations(["a", "b", "aa", "A", "id", "className"], n):
                yield {"allowed": allowed, "props": list(ps), "before": n % 2 == 1}
    yield {"allowed": ["a"], "props": ["a", "b", "c", "id", "x"], "before": True}


def strat_allowed():
    nm = gen.weighted((4, st.sampled_from(PLAINP)), (1, st.from_regex(r"[a-zA-Z][a-zA-Z0-9]{0,5}", fullmatch=True)))
    return st.fixed_dictionaries({"allowed": gen.weighted((1, st.none()), (6, st.lists(nm, max_size=6))), "props": st.lists(nm, max_size=6, unique=True), "before": st.booleans()})


def test_names(case, ctx):
    """Every element below a component, with every attribute, and every attribute name as a prop."""
    nm, i = case["name"], case["i"]
    n = len(names.ATTRS)
    vals = [["s", "v"], ["s", ""], ["v", True], ["s", '"'], ["s", "true"]]
    for k in range(0, n, 12):
        at, seen = [], set()
        for a in names.ATTRS[k:k + 12]:
            if gen.norm_name(a) not in seen and a != "style":
                seen.add(gen.norm_name(a))
                at.append([a, vals[(i + len(at) + k) % len(vals)]])
        cut = (i + k) % (len(at) + 1)
        g = ["g", nm, k % 24 == 0, at[:cut], [["t", "x"], ["g", nm, True, at[cut:], []]]]
        comp = [["J", "V", [["p", g]], [["t", "k"]], "create"], ["J", "V", [], [g], "create"], ["J", "V", at[cut:], [["g", "div", True, [], [g]]], "create"]][(i + k // 12) % 3]
        test_component({"pool": [], "comp": comp, "steps": [["conv", "str"]]}, ctx)
    for body in ([], [["t", "a<b&"]], [["g", "style", True, [], [["t", "q"]]]], [["J", "W", [], [["t", "z"]], "create"]], [["n", 3], ["v", None]][:1]):
        test_component({"pool": [], "comp": ["J", "V", [["p", ["g", nm, True, [["style", ["s", "a-b:c"]]], body]]], [["g", nm, False, [], body], *body, ["g", nm, True, [], []]], "init"], "steps": [["conv", "str"], ["conv", "doc"]]}, ctx)
    ctx.nontrivial()


CHECKS = [
    Check("every element", test_names, cases=names.cases),
    Check("every position", test_component, cases=cases_positions),
    Check("values, names and ways to build", test_component, cases=cases_values),
    Check("allow-list, small scope", test_allowed, cases=cases_allowed),
    Check("allow-list", test_allowed, strategy=strat_allowed, quick=150, thorough=4000),
    Check("component trees and histories", test_component, strategy=strat_component, quick=900, thorough=30000),
    Check("large components", test_component, strategy=strat_big, quick=150, thorough=4000),
]
