"""C08 Rendering and tagify are pure and consistent; tagify returns an independent copy."""
import copy
import json
import os
from collections import UserList
from types import SimpleNamespace

from hypothesis import strategies as st

import htmltools
from htmltools import HTML, HTMLDependency, HTMLDocument, MetadataNode, Tag, TagList
from vfw import gen, names, sizes
from vfw.build import Expander, build, flat
from vfw.core import Check, expect, expect_eq, fail
from vfw.deps import Cached, dep_spec, make_source, objects, snap, subst

ROOTS = st.sampled_from(["html", "body", "head", "div", "span", "p", "script", "br", "title"])
NAME = gen.weighted((4, ROOTS), (4, gen.TAGNAME))
ATTR = gen.attrs(gen.weighted((4, gen.SHORT.map(lambda s: ["s", s])), (1, gen.ATTRVAL_H)), mx=3)
XNODE = st.sampled_from([["t", "e"], ["g", "p", True, [], [["t", "x"]]], ["h", "<i>"], ["d", {"name": "xd", "version": "2", "script": [{"src": "a.js"}], "source": {"href": "u"}}],
                         ["g", "html", True, [["id", ["s", "h"]]], [["g", "head", True, [], []], ["g", "body", True, [], [["t", "b"]]]]],
                         ["g", "body", True, [], [["t", "bb"]]], ["g", "head", True, [], [["d", {"name": "xh", "version": "1"}]]]])


# what may also sit inside a dependency's head: metadata, and dependencies of its own
INHEAD = st.sampled_from([["m", 0], ["m", 1], ["d", {"name": "inner", "version": "1", "script": [{"src": "i.js"}], "source": {"href": "u"}}], ["g", "div", True, [["id", ["s", "i"]]], [["m", 2], ["t", "x"], ["d", {"name": "deep", "version": "2", "head": [["m", 3]]}]]],
                          ["g", "b", False, [], [["m", 0]]]])


def headed(d, more):
    h = d.get("head")
    return {**d, "head": ([["t", h]] if isinstance(h, str) else list(h or [])) + more} if more else d


def leaf(expand=True):
    opts = [(5, gen.SHORT.map(lambda s: ["t", s])), (1, gen.TEXT.map(lambda s: ["h", s])), (1, gen.SHORT.map(lambda s: ["r", s])), (1, st.sampled_from([["m", 0], ["m", 1], ["N"], ["n", 4]])),
            (4, dep_spec().map(lambda d: ["d", d])), (1, st.tuples(dep_spec(), st.lists(INHEAD, min_size=1, max_size=2)).map(lambda t: ["d", headed(*t)])), (1, st.lists(st.sampled_from([["t", "hc"], ["g", "title", False, [], [["t", "T"]]]]), max_size=2).map(lambda l: ["hc", l]))]
    if expand:
        opts.append((2, st.tuples(st.sampled_from(["x", "X", "C"]), st.sampled_from(["list", "one"]), st.lists(XNODE, max_size=3)).map(lambda t: [t[0], t[1] if t[2] else "list", t[2]])))
    return gen.weighted(*opts)


def mk(n):
    """build() that also knows caching expanders ["C", kind, nodes]."""
    k = n[0]
    if k == "C":
        e = Expander(n[1], n[2]).tagify()
        return Cached(e)
    if k == "g":
        from vfw.build import attr_value

        return Tag(n[1], *[{a: attr_value(v)} for a, v in n[3]], *[mk(c) for c in n[4]], _add_ws=n[2])
    if k == "L":
        return [mk(c) for c in n[1]]
    if k == "U":
        return tuple(mk(c) for c in n[1])
    if k == "T":
        return TagList(*[mk(c) for c in n[1]])
    return build(n)


def contains(nodes, kinds):
    return any(n[0] in kinds or (n[0] == "g" and contains(n[4], kinds)) or (n[0] in "LUT" and contains(n[1], kinds)) for n in nodes)


def all_deps(x):
    return [o for k, o in objects(x).values() if isinstance(o, HTMLDependency)]


def all_tags(x):
    return [o for k, o in objects(x).values() if k == "tag"]


def shape(nodes, kind):
    """The tree under test: a list, a lone tag, or a lone <html>/<body>."""
    if kind == "list":
        return nodes
    if kind == "tag":
        g = [n for n in flat(nodes) if n[0] == "g"]
        return g[:1] or [["g", "div", True, [], nodes]]
    return [["g", kind, True, [["id", ["s", "root"]], ["lang", ["s", "fr"]]], nodes]]


def trees(expand=True):
    return st.fixed_dictionaries({"nodes": gen.tree_nodes(leaf(expand), name=NAME, attr=ATTR, max_leaves=9, fan=4), "kind": st.sampled_from(["list", "list", "tag", "html", "body"])})


DOCKW = st.dictionaries(st.sampled_from(["lang", "class_", "id", "data_x"]), st.sampled_from(["en", "a b", True, False, None, 3, "<&"]), max_size=2)
OPS = st.one_of(
    st.sampled_from([["tagify"], ["render"], ["str"], ["repr"], ["_repr_html_"], ["deps", True], ["deps", False], ["copy"], ["eq"], ["json_str"], ["hash_free"]]),
    st.tuples(st.just("html"), st.integers(0, 4), st.sampled_from(["\n", "", "|"])).map(list),
    st.tuples(st.just("doc"), st.sampled_from(["lib", None, "a/b", ""]), st.booleans()).map(list),
    st.tuples(st.sampled_from(["newdoc", "newdoc_list", "doc_copy"]), st.sampled_from(["lib", None]), st.booleans()).map(list),
    st.tuples(st.sampled_from(["save", "save_doc"]), st.sampled_from(["lib", "l/m", None]), st.booleans()).map(list),
    st.tuples(st.just("dep"), st.integers(0, 9), st.sampled_from(["as_html_tags", "as_dict", "source_path_map", "serialize", "serialize2", "str", "repr", "copy", "eq"]), st.sampled_from(["lib", None, "p q"]), st.booleans()).map(list),
    st.tuples(st.just("sub"), st.integers(0, 9), st.sampled_from(["tagify", "render", "str", "doc", "copy", "html"])).map(list),
)


def result(x):
    """Comparable form of the value of an operation."""
    if isinstance(x, (Tag, TagList, HTMLDependency)):
        return snap(x)
    if isinstance(x, dict) and set(x) == {"dependencies", "html"}:
        return ("rendered", type(x["html"]).__name__, x["html"], [snap(d) for d in x["dependencies"]])
    if isinstance(x, (list, tuple)):
        return [result(v) for v in x]
    return snap(x)


def apply(op, x, doc, kw, tmp):
    k = op[0]
    if k == "tagify":
        return result(x.tagify())
    if k == "render":
        return result(x.render())
    if k == "str":
        return str(x)
    if k == "repr":
        return repr(x)
    if k == "_repr_html_":
        return x._repr_html_()
    if k == "json_str":
        htmltools.html_dependency_render_mode = "json"
        try:
            return str(x)
        finally:
            htmltools.html_dependency_render_mode = "invisible"
    if k == "deps":
        return result(x.get_dependencies(dedup=op[1]))
    if k == "copy":
        c = copy.copy(x)
        return result(c)
    if k == "eq":
        return (x == x, x == copy.copy(x), x == x.tagify(), x == 1, x != x)
    if k == "hash_free":
        return len(list(x.children if isinstance(x, Tag) else x))
    if k == "html":
        try:
            return x.get_html_string(op[1], op[2])
        except RuntimeError:
            return "RuntimeError"
    if k == "doc":
        return result(doc.render(lib_prefix=op[1], include_version=op[2]))
    if k == "newdoc":
        return result(HTMLDocument(x, **kw).render(lib_prefix=op[1], include_version=op[2]))
    if k == "newdoc_list":
        return result(HTMLDocument([x], {"a": 1} if False else None, **kw).render(lib_prefix=op[1], include_version=op[2]))
    if k == "doc_copy":
        return result(copy.copy(doc).render(lib_prefix=op[1], include_version=op[2]))
    if k in ("save", "save_doc"):
        f = os.path.join(tmp, "out", "page.html")
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if k == "save":
            r = x.save_html(f, libdir=op[1], include_version=op[2])
        else:
            r = doc.save_html(f, libdir=op[1], include_version=op[2])
        return (r, open(f, "rb").read())
    if k == "dep":
        ds = all_deps(x)
        if not ds:
            return None
        d = ds[op[1] % len(ds)]
        a = dict(lib_prefix=op[3], include_version=op[4])
        m = op[2]
        if m == "as_html_tags":
            return result(d.as_html_tags(**a))
        if m == "as_dict":
            return result(d.as_dict(**a))
        if m == "source_path_map":
            return result(d.source_path_map(**a))
        if m == "serialize":
            return result(d.serialize_to_script_json())
        if m == "serialize2":
            return result(d.serialize_to_script_json(indent=2))
        if m == "copy":
            return result(copy.copy(d))
        if m == "eq":
            return (d == d, d == copy.copy(d), d == 1)
        return {"str": str, "repr": repr}[m](d)
    if k == "sub":
        ts = all_tags(x)
        if not ts:
            return None
        t = ts[op[1] % len(ts)]
        return apply({"html": ["html", 2, "\n"], "doc": ["newdoc", "lib", True]}.get(op[2], [op[2]]), t, None, kw, tmp)
    raise ValueError(op)


def test_pure(case, ctx):
    tmp = ctx.tmp()
    src = os.path.join(tmp, "src")
    make_source(src)
    nodes = subst(shape(case["nodes"], case["kind"]), "@SRC", src)
    objs = [mk(n) for n in nodes]
    x = objs[0] if case["kind"] != "list" else TagList(*objs)
    kw = case["kw"]
    doc = HTMLDocument(x, **kw) if case["at_init"] else HTMLDocument(**kw)
    if not case["at_init"]:
        doc.append(x)
    before = snap([x, kw, objs])
    memo = {}
    for i, op in enumerate(case["ops"] + case["again"]):
        if i >= len(case["ops"]):
            op = case["ops"][op % len(case["ops"])] if case["ops"] else ["render"]
        r = apply(op, x, doc, kw, tmp)
        k = json.dumps(op)
        if k in memo:
            expect_eq(r, memo[k], f"repeating {op} gave another result", ops=case["ops"])
        memo[k] = r
        after = snap([x, kw, objs])
        if after != before:
            fail(f"{op} changed its operand", before=before, after=after)
    # consistency of the string forms
    for t in [x, *all_tags(x)[:4]]:
        s = t.render()["html"]
        expect(type(s) is str, "render()['html'] is not a str")
        expect_eq([str(t), repr(t), t._repr_html_()], [s, s, s], "str/repr/_repr_html_/render differ")
    if case["kind"] != "list" and not case["kw"]:
        expect_eq(HTMLDocument(x).render(), doc.render(), "document built at once and by append")
    ctx.nontrivial(len(case["ops"]) >= 2 and (contains(nodes, "dxXC") or case["kind"] in ("html", "body")))
    ctx.label("root " + case["kind"])
    for op in case["ops"]:
        ctx.label("op " + op[0])


def strat_pure():
    return st.builds(lambda t, o, a, k, i: {**t, "ops": o, "again": a, "kw": k, "at_init": i}, trees(), st.lists(OPS, min_size=1, max_size=6), st.lists(st.integers(0, 9), max_size=3), DOCKW, st.booleans())


# ------------------------------------------------------------------------ tagify copies
def test_tagify(case, ctx):
    nodes = shape(case["nodes"], case["kind"])
    objs = [mk(n) for n in nodes]
    x = objs[0] if case["kind"] != "list" else TagList(*objs)
    s0 = snap(x)
    t = x.tagify()
    expect(type(t) is type(x), "tagify() changes the kind of object")
    exp = contains(flat(nodes), "xXC")
    if not exp:
        expect_eq(snap(t), s0, "tagify() differs from the original although nothing needed expansion")
        expect(t == x and x == t and not (t != x), "tagify() != original although nothing needed expansion", tree=nodes)
    t2 = t.tagify()
    expect_eq(snap(t2), snap(t), "tagify() is not a fixed point")
    expect(t2 == t and t == t2, "tagify().tagify() != tagify()", tree=nodes)
    pairs = [(x, t, "original", "copy"), (t, t2, "first copy", "second copy")]
    ts = all_tags(x)
    if ts:
        sub = ts[case["sub"] % len(ts)]
        pairs.append((sub, sub.tagify(), "subtree", "its copy"))
    pool_ok = not contains(flat(nodes), "C")
    for a, b, la, lb in pairs:
        if not pool_ok and a is x:
            continue  # what a caching expander hands out is its own affair
        oa, ob = objects(a), objects(b)
        shared = [oa[i][0] for i in oa.keys() & ob.keys()]
        expect(not shared, f"{la} and {lb} share objects: {sorted(shared)}", tree=nodes)
    if not pool_ok:
        t = t2.tagify()
        x = t2
    # mutate one, the other must not notice
    a, b = (x, t) if case["side"] else (t, x)
    rb = [snap(b), result(b.render()), str(b)]
    for m in case["muts"]:
        mutate(a, m)
        expect_eq(snap(b), rb[0], f"mutating {'the original' if case['side'] else 'the copy'} ({m}) changed the other", tree=nodes)
    expect_eq([snap(b), result(b.render()), str(b)], rb, "mutation of the other tree shows in the output")
    ctx.nontrivial(len(all_tags(x)) >= 2 and bool(case["muts"]))
    ctx.label("expansion" if exp else "no expansion", "with dependency" if contains(flat(nodes), "d") else "no dependency")


def mutate(x, m):
    op, where, i, v = m
    if op.startswith("dep_"):
        ds = all_deps(x)
        if not ds:
            return
        d = ds[where % len(ds)]
        l = {"script": d.script, "stylesheet": d.stylesheet, "meta": d.meta}[["script", "stylesheet", "meta"][i % 3]]
        if op == "dep_item" and l:
            l[i % len(l)]["data-new"] = v
        elif op == "dep_item_del" and l:
            l[i % len(l)].clear()
        elif op == "dep_list":
            l.append({"src": v, "href": v, "name": v, "content": v})
        elif op == "dep_list_clear":
            l.clear()
        elif op == "dep_source" and d.source is not None:
            d.source[["href", "subdir"][i % 2]] = v
        elif op == "dep_head" and d.head is not None:
            d.head.append(Tag("b", v))
        elif op == "dep_head_tag" and d.head is not None:
            for c in d.head:
                if isinstance(c, Tag):
                    c.attrs["data-new"] = v
                    c.append(v)
                    for g in c.children:
                        if isinstance(g, Tag):
                            g.name = "changed"
        elif op == "dep_set":
            d.name, d.all_files = v or "n", not d.all_files
            d.version = type(d.version)("99")
        return
    ts = all_tags(x)
    lists = [o for k, o in objects(x).values() if k == "child list"]
    if op.startswith("list_"):
        if not lists:
            return
        l = lists[where % len(lists)]
        if op == "list_append":
            l.append(v, Tag("u", v))
        elif op == "list_insert":
            l.insert(i, [v])
        elif op == "list_clear":
            l.clear()
        elif op == "list_reverse":
            l.reverse()
        elif op == "list_iadd":
            l += [v]
        elif op == "list_pop" and len(l):
            l.pop(i % len(l))
        elif op == "list_set" and len(l):
            l[i % len(l)] = v
        return
    if not ts:
        return
    t = ts[where % len(ts)]
    if op == "name":
        t.name = "new"
    elif op == "add_ws":
        t.add_ws = not t.add_ws
    elif op == "attr":
        t.attrs["data-new"] = v
    elif op == "attr_over" and t.attrs:
        t.attrs[list(t.attrs)[i % len(t.attrs)]] = v
    elif op == "attr_update":
        t.attrs.update({"id": v}, class_=v)
    elif op == "attr_clear":
        t.attrs.clear()
    elif op == "class":
        t.add_class(v or "k")
    elif op == "unclass":
        t.remove_class(str(t.attrs.get("class") or "k").split(" ")[0])
    elif op == "style":
        t.add_style(v + ";")
    elif op == "append":
        t.append(v, [Tag("i", v)])
    elif op == "insert":
        t.insert(i, v)
    elif op == "extend":
        t.extend([v, None, 3])
    elif op == "children":
        t.children = TagList(v)


MUTS = ["name", "add_ws", "attr", "attr_over", "attr_update", "attr_clear", "class", "unclass", "style", "append", "insert", "extend", "children", "list_append", "list_insert", "list_clear",
        "list_reverse", "list_iadd", "list_pop", "list_set", "dep_item", "dep_item_del", "dep_list", "dep_list_clear", "dep_source", "dep_head", "dep_head_tag", "dep_set"]
MUT = st.tuples(st.sampled_from(MUTS), st.integers(0, 30), st.integers(-2, 5), st.sampled_from(["v", "w x", "", "<&>"])).map(list)


def strat_tagify():
    return st.builds(lambda t, m, s, k: {**t, "muts": m, "side": s, "sub": k}, st.one_of(trees(), trees(False)), st.lists(MUT, min_size=1, max_size=5), st.booleans(), st.integers(0, 20))


# ---------------------------------------------------------------------------- equality
def canonical(n):
    """What equality may look at."""
    if isinstance(n, list) and n and n[0] == "g":
        from vfw.build import stored_attrs

        return ("g", n[1], n[2], sorted((k, " ".join(t for _, t in v)) for k, v in stored_attrs(n[3])), [canonical(c) for c in flat(n[4])])
    if n[0] == "d":
        d = dict(n[1])
        for k in ("script", "stylesheet", "meta"):
            v = d.get(k)
            v = [] if v is None else [v] if isinstance(v, dict) else v
            if k == "stylesheet":
                v = [{"rel": "stylesheet", **s} for s in v]
            d[k] = [sorted(i.items()) for i in v]
        h = d.get("head")
        d["head"] = None if h is None else ["t", h] if isinstance(h, str) else [canonical(c) for c in flat(h)]
        d.setdefault("all_files", False)
        d["source"] = None if d.get("source") is None else sorted((k, v) for k, v in d["source"].items())
        return ("d", sorted(d.items(), key=lambda kv: kv[0]))
    if n[0] == "hc":
        return ("hc", [canonical(c) for c in flat(n[1])])
    return tuple(n)


def spots(nodes, path=()):
    for i, n in enumerate(nodes):
        yield nodes, i
        if n[0] == "g":
            yield from spots(n[4])
        elif n[0] in "LUT":
            yield from spots(n[1])


def edit(nodes, e):
    """One change of the spec (possibly none)."""
    op, w, v = e
    nodes = json.loads(json.dumps(nodes))
    sp = list(spots(nodes))
    if not sp:
        return [["t", v]] if op == "ins" else nodes
    if op in ("name", "ws", "attr_add", "attr_del", "attr_val", "attr_order", "attr_name", "kid_ins"):
        sp = [s for s in sp if s[0][s[1]][0] == "g"] or sp
    elif op.startswith("dep_"):
        sp = [s for s in sp if s[0][s[1]][0] == "d"] or sp
    elif op == "text":
        sp = [s for s in sp if s[0][s[1]][0] in "thn"] or sp
    l, i = sp[w % len(sp)]
    n = l[i]
    if op == "ins":
        l.insert(i + (w % 2), ["t", v])
    elif op == "del":
        del l[i]
    elif op == "swap" and i + 1 < len(l):
        l[i], l[i + 1] = l[i + 1], l[i]
    elif op == "dup":
        l.insert(i, json.loads(json.dumps(n)))
    elif op == "nest":
        l[i] = ["L", [n]]
    elif op == "none":
        l.insert(i, ["N"])
    elif op == "wrap":
        l[i] = ["g", "div", True, [], [n]]
    elif op == "unwrap" and n[0] == "g":
        l[i : i + 1] = n[4]
    elif op == "split" and n[0] == "t" and len(n[1]) > 1:
        l[i : i + 1] = [["t", n[1][:1]], ["t", n[1][1:]]]
    elif op == "text" and n[0] in "th":
        n[1] = n[1] + v if w % 2 else v + n[1]
    elif op == "num" and n[0] == "n":
        l[i] = ["t", str(n[1])]
    elif n[0] == "g":
        if op == "name":
            n[1] = v + "x"
        elif op == "ws":
            n[2] = not n[2]
        elif op == "attr_add":
            n[3].append(["zz", ["s", v]])
        elif op == "attr_del" and n[3]:
            n[3].pop(w % len(n[3]))
        elif op == "attr_val" and n[3]:
            n[3][w % len(n[3])][1] = ["s", v]
        elif op == "attr_order" and n[3]:
            n[3].reverse()
        elif op == "attr_name" and n[3]:
            n[3][w % len(n[3])][0] = "yy"
        elif op == "kid_ins":
            n[4].append(["t", v])
    elif n[0] == "d":
        d = n[1]
        if op == "dep_name":
            d["name"] = "other"
        elif op == "dep_version":
            d["version"] = "77.7"
        elif op == "dep_files":
            d["all_files"] = not d.get("all_files", False)
        elif op == "dep_source":
            d["source"] = {"href": "q" + v}
        elif op in ("dep_script", "dep_stylesheet", "dep_meta"):
            k = op[4:]
            x = d.get(k)
            x = [] if x is None else [x] if isinstance(x, dict) else x
            d[k] = x + [{"src": v, "href": v, "name": v, "content": v}]
        elif op == "dep_item":
            for k in ("script", "stylesheet", "meta"):
                x = d.get(k)
                if x:
                    (x if isinstance(x, dict) else x[-1])["data-q"] = v
                    break
        elif op == "dep_head":
            d["head"] = [["g", "q", True, [], [["t", v]]]]
    return nodes


EDITS = ["ins", "del", "swap", "dup", "nest", "none", "wrap", "unwrap", "split", "text", "num", "name", "ws", "attr_add", "attr_del", "attr_val", "attr_order", "attr_name", "kid_ins",
         "dep_name", "dep_version", "dep_files", "dep_source", "dep_script", "dep_stylesheet", "dep_meta", "dep_item", "dep_head", "same", "same"]


def kinds(n):
    """Strips the parts equality is not specified on: HTML("x") next to "x"."""
    return n


def no_html(nodes):
    """HTML(s) compares equal to s as a string; whether trees that differ only in that are equal is
    not specified, so equality is checked on trees with each text of one kind only."""
    out = []
    for n in nodes:
        if n[0] == "h":
            out.append(["h", "<h>" + n[1]])
        elif n[0] == "t":
            out.append(["t", n[1]])
        elif n[0] == "g":
            out.append(["g", n[1], n[2], [[a, ["s", v[1]] if v[0] == "h" else v] for a, v in n[3]], no_html(n[4])])
        elif n[0] in "LUT":
            out.append([n[0], no_html(n[1])])
        elif n[0] == "d" and isinstance(n[1].get("head"), list):
            out.append(["d", {**n[1], "head": no_html(n[1]["head"])}])
        elif n[0] == "r":
            out.append(["t", "r" + n[1]])
        else:
            out.append(n)
    return out


def ambiguous(a, b):
    """Texts on one side that are HTML on the other."""

    def texts(nodes, k, out):
        for n in nodes:
            if n[0] == "g":
                texts(n[4], k, out)
            elif n[0] in "LUT":
                texts(n[1], k, out)
            elif n[0] in ("d",):
                h = n[1].get("head")
                if isinstance(h, str):
                    if k == "h":
                        out.add(h)
                elif h:
                    texts(h, k, out)
            elif n[0] == k or (k == "t" and n[0] == "n"):
                out.add(str(n[1]))
        return out

    return bool((texts(a, "t", set()) | texts(b, "t", set())) & (texts(a, "h", set()) | texts(b, "h", set())))


class Other:
    """Nothing of htmltools; fields and protocols of one of its objects."""

    def tagify(self):
        return TagList()

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)

    def __getitem__(self, i):
        return self.data[i]


def look_alike(cls, o):
    r = cls.__new__(cls)
    r.__dict__.update(vars(o))
    return r


def test_eq(case, ctx):
    a = no_html(shape(case["nodes"], case["kind"]))
    b = a
    for e in case["edits"]:
        b = edit(b, e)
    if ambiguous(a, b):
        ctx.label("skipped: same text as str and HTML")
        return
    xs, ys = [build(n) for n in a], [build(n) for n in b]
    same = [canonical(n) for n in flat(a)] == [canonical(n) for n in flat(b)]
    x, y = TagList(*xs), TagList(*ys)
    if case["touch"]:
        # read-only operations and finished context managers do not count
        str(x), x.tagify(), x.render(), HTMLDocument(x).render()
        for t in all_tags(y)[:3]:
            import sys

            prev = sys.displayhook
            sys.displayhook = lambda v: None
            try:
                with t:
                    pass
            finally:
                sys.displayhook = prev
    for p, q in ((x, y), (y, x), (Tag("k", x), Tag("k", y)), (x.tagify(), y), (Tag("k", Tag("j", x)), Tag("k", Tag("j", y)))):
        r = p == q
        expect(r is True or r is False, "== is not a bool")
        expect_eq(r, same, "== of lists / tags", left=a, right=b, left_str=str(p), right_str=str(q))
        expect_eq(p != q, not same, "!= of lists / tags", left=a, right=b)
    if len(x) and len(y) and isinstance(x[0], (Tag, HTMLDependency)) and len(flat(a)) == len(flat(b)) == 1:
        expect_eq(x[0] == y[0], same, "== of tags / dependencies", left=a, right=b)
        expect_eq(y[0] == x[0], same, "== of tags / dependencies", left=b, right=a)
    # objects of different kinds
    dep = HTMLDependency("k", "1")
    tag = Tag("k", x)
    pool = [x, tag, dep, HTMLDocument(x), str(x), HTML(str(x)), list(x), tuple(x), UserList(list(x)), None, 1, {"data": list(x)}, object(), MetadataNode()]
    # other kinds of objects with the same fields
    for o in (x, tag, dep):
        pool += [SimpleNamespace(**vars(o)), dict(vars(o)), look_alike(MetadataNode, o), look_alike(Other, o)]
    d2 = next((d for d in all_deps(x)), None)
    if d2 is not None:
        pool += [look_alike(MetadataNode, d2), SimpleNamespace(**vars(d2))]
    for i in range(3):
        for j, o in enumerate(pool):
            if i != j:
                expect((pool[i] == o) is False, f"objects of different kinds are equal ({type(pool[i]).__name__} / {type(o).__name__})", value=str(pool[i]))
                expect((pool[i] != o) is True, "!= of objects of different kinds")
    ctx.nontrivial(bool(case["edits"]) and bool(flat(a)))
    ctx.label("equal" if same else "different")
    for e in case["edits"]:
        ctx.label("edit " + e[0])


def strat_eq():
    ed = st.tuples(st.sampled_from(EDITS), st.integers(0, 60), st.sampled_from(["v", "a", "", " ", "0"])).map(list)
    return st.builds(lambda t, e, k: {**t, "edits": e, "touch": k}, trees(False), gen.weighted((5, st.lists(ed, min_size=1, max_size=1)), (2, st.lists(ed, min_size=2, max_size=3))), st.booleans())


SIZE_LEAF = [["t", "l"], ["g", "i", False, [["id", ["s", "k"]]], []], ["d", {"name": "a", "version": "1", "head": [["g", "b", False, [], []]]}], ["m", 0], ["g", "p", True, [], [["t", "e"]]]]


def big_dep(n):
    return {"name": "big", "version": "1", "source": {"href": "u"}, "script": [{"src": f"s{i}.js", "x": "1"} for i in range(n)], "stylesheet": [{"href": f"s{i}.css"} for i in range(n)],
            "meta": [{"name": f"m{i}", "content": "c"} for i in range(n)], "head": [["g", "q", True, [], [["t", str(i)]]] for i in range(n)]}


def test_size(case, ctx):
    n = case["n"]
    nodes = sizes.nodes(case, SIZE_LEAF if case.get("unit") != "empty" else [["g", "i", False, [["id", ["s", "k"]]], []]])
    if case["shape"] == "attrs" and n < 300:
        nodes += [["d", big_dep(n)]]
    base = {"nodes": nodes, "kind": ["list", "tag", "html", "body"][n % 4]}
    kinds_ = len(MUTS)
    test_tagify({**base, "muts": [[MUTS[(n + j) % kinds_], n * j, j, "v"] for j in range(4)], "side": n % 2 == 0, "sub": n // 2}, ctx)
    test_pure({**base, "ops": [["tagify"], ["render"], ["copy"], ["doc", "lib", True], ["dep", 0, "as_dict", "lib", True], ["dep", 1, "as_dict", "lib", True], ["dep", n % 2, "as_html_tags", "lib", False], ["dep", 1, "serialize", "lib", True]], "again": [0, 4],
               "kw": {}, "at_init": n % 2 == 0}, ctx)
    # one difference, early, late or in the middle
    sp = len(list(spots(no_html(shape(nodes, base["kind"])))))
    for w, es in ((0, ("attr_val", "ws")), (n // 2, ("text",)), (-1, (("del", "text", "swap")[n % 3],))):
        for e in es:
            test_eq({**base, "edits": [[e, w % sp, "v"]], "touch": False}, ctx)
    ctx.nontrivial()


# ---------------------------------------------------------------------------------- components
def test_components(case, ctx):
    """JSX components are expanded by tagify() too: what comes out shares nothing with what went in."""
    from htmltools._jsx import jsx_tag_create

    kids = [mk(n) for n in case["kids"]]
    prop = Tag("i", *[mk(n) for n in case["prop"]])
    Comp, Inner = jsx_tag_create("Comp"), jsx_tag_create("a.Inner")
    how = case["how"]
    if how == "child":
        c = Comp(*kids, p=prop)
    elif how == "nested":
        c = Comp(Inner(*kids, p=prop), q="x")
    elif how == "tag":
        c = Comp(Tag("p", Tag("b", *kids)), p=Inner(prop))
    else:
        c = Comp(TagList(*kids), p=[prop, {"k": prop}])
    x = TagList("a", Tag("div", c), *[mk(n) for n in case["rest"]])
    inside = {}
    for o in (*kids, prop, *c.children):
        objects(o, inside)
    objects(x, inside)
    s0 = [snap(o) for o in (*kids, prop)]
    t = x.tagify()
    ot = objects(t)
    shared = [inside[i][0] for i in inside.keys() & ot.keys()]
    expect(not shared, f"the expansion of a component shares objects with it: {sorted(shared)}")
    r = [str(x), result(x.render())]
    for d in all_deps(t):
        d.meta.append({"name": "added", "content": "later"})
        if d.head is not None:
            d.head.append("later")
        for i in d.script:
            i["data-late"] = "1"
    for g in all_tags(t):
        g.attrs["data-late"] = "1"
    expect_eq([snap(o) for o in (*kids, prop)], s0, "changing the expansion changed the component")
    expect_eq([str(x), result(x.render())], r, "changing the expansion shows in the component's next expansion")
    expect(len(x.tagify().get_dependencies()) >= 2, "react is missing")
    ctx.nontrivial(any(k == "metadata node" for k, _ in inside.values()))
    ctx.label("component: " + how)


def strat_components():
    k = gen.weighted((3, st.sampled_from([["t", "x"], ["m", 0], ["g", "b", False, [], [["m", 1]]]])), (4, dep_spec(local=None).map(lambda d: ["d", d])), (2, dep_spec(local=None).map(lambda d: ["g", "u", True, [], [["d", d]]])), (1, st.tuples(dep_spec(local=None), st.lists(INHEAD, min_size=1, max_size=1)).map(lambda t: ["d", headed(*t)])))
    return st.fixed_dictionaries({"kids": st.lists(k, max_size=3), "prop": st.lists(k, max_size=2), "rest": st.lists(k, max_size=1), "how": st.sampled_from(["child", "nested", "tag", "list"])})


def test_names(case, ctx):
    """Every element as the root and inside, with every attribute on it."""
    nm, i = case["name"], case["i"]
    G = lambda n, k, ws=True, at=(): ["g", n, ws, [list(a) for a in at], k]
    d = ["d", {"name": "a", "version": "1", "source": {"href": "u"}, "script": [{"src": "a.js"}], "head": [["g", "b", False, [], [["t", "q"]]]]}]
    n = len(names.ATTRS)
    k = 0
    for kids in ([], [["t", "x"]], [d, ["t", "a"], ["m", 0]], [G(nm, [["t", "y"]])], [["x", "list", [["t", "e"], G("i", [], False)]]], [G("p", [["h", "<k>"], d]), G(nm, [], False)]):
        k += 1
        at, seen = [], set()
        for a in [names.ATTRS[(i * 41 + k * 13 + j) % n] for j in range(4)]:
            if gen.norm_name(a) not in seen:
                seen.add(gen.norm_name(a))
                at.append([a, ["s", ["v", "", "<&", "x y"][(i + len(at)) % 4]]])
        el = G(nm, kids, bool(k % 2), at[: k % 5])
        for j, nodes in enumerate(([el], [["t", "t"], el, G("div", [el, d])])):
            base = {"nodes": nodes, "kind": ["tag", "html", "body", "list"][(i + k) % 4] if j else "tag"}
            test_tagify({**base, "muts": [[MUTS[(i + k * 5 + q) % len(MUTS)], i + q, q, "v"] for q in range(3)], "side": k % 2 == 0, "sub": k}, ctx)
            test_pure({**base, "ops": [["tagify"], ["render"], ["copy"], ["doc", "lib", True], ["html", 1, "\n"], ["json_str"]], "again": [0, 1, 3], "kw": {}, "at_init": j == 0}, ctx)
            if not contains(flat(nodes), "x"):
                for e in (["same", "name"], ["attr_val", "attr_del"], ["attr_add", "ws"], ["text", "kid_ins"])[(i + k + j) % 4]:
                    test_eq({**base, "edits": [[e, i + k, "v"]], "touch": False}, ctx)
    ctx.nontrivial()


CHECKS = [
    Check("every element", test_names, cases=names.cases),
    Check("sizes", test_size, cases=lambda tier: sizes.cases(tier, wide=260, deep=70, units=("empty", "mixed"), levels=("mixed",))),
    Check("purity", test_pure, strategy=strat_pure, quick=600, thorough=15000),
    Check("tagify", test_tagify, strategy=strat_tagify, quick=800, thorough=20000),
    Check("components", test_components, strategy=strat_components, quick=250, thorough=5000),
    Check("equality", test_eq, strategy=strat_eq, quick=800, thorough=20000),
]
