"""C19 Every tag function creates its own element with the documented default."""
import htmltools
from htmltools import HTML, Tag, TagList
from hypothesis import strategies as st

from vfw import gen, names
from vfw.build import build
from vfw.core import Check, expect, expect_eq, fail
from vfw.deps import snap

from . import c14, c15

TOP = ["a", "br", "code", "div", "em", "h1", "h2", "h3", "h4", "h5", "h6", "hr", "img", "p", "pre", "span", "strong"]
FUNCS = [("tags", f, *gen.CAT["tags"][f]) for f in gen.HTML_NAMES] + [("svg", f, *gen.CAT["svg"][f]) for f in gen.SVG_NAMES] + [("top", f, *gen.CAT["tags"][f]) for f in TOP]
BAD_WS = {"0": 0, "1": 1, "None": None, "str": "True", "empty": "", "list": [], "list1": [True], "float": 1.0, "html": HTML("x"), "tuple": (), "obj": object(), "ell": ..., "type": bool, "False": "False", "tag": Tag("b"), "dict": {}, "yes": "yes", "-1": -1}


class Sub(int):
    pass


BAD_WS["intsub"] = Sub(1)


def func(mod, name):
    m = htmltools if mod == "top" else getattr(htmltools, mod)
    f = getattr(m, name, None)
    expect(callable(f), f"htmltools.{mod}.{name} is missing", got=f)
    return f


def outcome(fn):
    try:
        return "ok", fn()
    except Exception as e:
        return "raise", type(e)


def same(a, b):
    """Same tag, with the identical children objects."""
    if type(a) is not Tag or type(b) is not Tag:
        return False
    if a.name != b.name or a.add_ws is not b.add_ws or len(a.children) != len(b.children):
        return False
    if c15.types(a.attrs) != c15.types(b.attrs):
        return False
    return all(type(x) is type(y) and (x is y or (isinstance(x, (str, HTML)) and str(x) == str(y))) for x, y in zip(a.children, b.children))


def test_call(case, ctx):
    mod, fname, elem, ws = case["f"]
    f = func(mod, fname)
    env = c14.Env()
    env.objs.append(TagList("q"))
    env.model.append(["q"])
    args = []
    for a in case["args"]:
        if a[0] == "D":
            args.append({n: c15.live(v) for n, v in a[1]})
        elif a[0] == "bad":
            args.append(c14.INVALID[a[1]]())
        else:
            args.append(c14.value(a[1], env)[0])
    kw = {n: c15.live(v) for n, v in case["kw"]}
    w = case["ws"]
    expected_ws = ws if w is None else w
    if isinstance(w, str):  # an _add_ws that is not a bool
        v = BAD_WS[w]
        got = outcome(lambda: f(*args, _add_ws=v, **kw))
        expect(got[0] == "raise" and got[1] is TypeError, f"{mod}.{fname}(_add_ws={v!r}) must be rejected with TypeError", got=got)
        ctx.nontrivial()
        ctx.label("non-boolean _add_ws")
        return
    if w is not None:
        kw["_add_ws"] = w
    gens = any(a[0] == "bad" for a in case["args"])
    want = outcome(lambda: Tag(elem, *args, **{"_add_ws": expected_ws, **kw}))
    if gens:
        args = [c14.INVALID[a[1]]() if a[0] == "bad" else x for a, x in zip(case["args"], args)]
    got = outcome(lambda: f(*args, **kw))
    if want[0] != got[0] or (want[0] == "raise" and want[1] is not got[1]):
        fail(f"{mod}.{fname}() differs from the Tag constructor", got=got, want=want, args=args, kw=kw)
    if want[0] == "raise":
        ctx.label("rejected arguments")
        return
    t, u = got[1], want[1]
    if t.name != elem:
        fail(f"{mod}.{fname}() creates <{t.name}>", want=elem)
    if t.add_ws is not expected_ws:
        fail(f"{mod}.{fname}(): add_ws is {t.add_ws!r}", want=expected_ws)
    if not same(t, u):
        fail(f"{mod}.{fname}() differs from the Tag constructor", got=vars(t), want=vars(u))
    expect(t == u and u == t, f"{mod}.{fname}() is not equal to the Tag constructor's result", got=vars(t), want=vars(u))
    o1, o2 = outcome(lambda: str(t)), outcome(lambda: str(u))
    expect(o1 == o2, f"{mod}.{fname}(): rendering differs", got=o1, want=o2)
    # each call gives its own tag
    before = (c15.types(u.attrs), len(u.children))
    t.attrs["class"] = "changed"
    t.append("changed", Tag("i"))
    t.add_ws = not t.add_ws
    t.name = "changed"
    t2 = f(*args, **kw)
    expect(t2 is not t and t2.children is not t.children and t2.attrs is not t.attrs, "two calls share state")
    if not same(t2, u):
        fail(f"{mod}.{fname}() after the first result was changed", got=vars(t2), want=vars(u))
    expect((c15.types(u.attrs), len(u.children)) == before, "state shared with another tag")
    ctx.nontrivial(bool(args) or bool(kw))
    ctx.label(mod, "explicit _add_ws" if w is not None else "default _add_ws")


S = lambda s: ["s", s]
FIXED = [
    ([], [], None), ([], [], True), ([], [], False), ([["c", ["t", "x"]]], [], None), ([["c", ["t", "x"]]], [["class_", S("c")]], False),
    ([["D", [["a_b", S("1")], ["class", S("p")]]], ["c", ["L", [["t", "x"], ["N"], ["n", 2]]]], ["D", [["class", S("q")]]]], [["class_", S("r")], ["for_", ["v", True]]], None),
    ([], [["name", S("n")], ["args", S("a")], ["kwargs", S("k")], ["add_ws", S("w")], ["cls", S("c")], ["type", S("t")], ["id", S("i")]], True),
    ([], [["data_x", ["v", 0]], ["hidden", ["v", True]], ["title", ["v", None]], ["x", ["v", False]]], False),
    ([["c", ["g", "b", False, [], [["t", "in"]]]], ["c", ["h", "<raw>"]], ["c", ["T", [["t", "1"], ["t", "2"]]]], ["c", ["U", [["t", "3"]]]], ["c", ["n", 4]], ["c", ["d", {"name": "a", "version": "1"}]], ["c", ["m", 1]], ["c", ["r", "<r>"]], ["c", ["x", "list", []]]], [], None),
    ([["D", []]], [["style", ["h", "a:b;"]]], None), ([["bad", "bytes"]], [], None), ([["c", ["t", "ok"]], ["bad", "gen"]], [["id", S("i")]], True), ([["bad", "dict"]], [], False),
    ([], [["href", S("h")], ["src", S("s")], ["value", S("v")], ["content", S("c")], ["width", ["v", 1.5]], ["d", S("M0")], ["children", S("k")], ["attrs", S("k")], ["tag", S("k")]], None),
]


def cases_all(tier):
    for f in FUNCS:
        for a, k, w in FIXED:
            yield {"f": list(f), "args": a, "kw": k, "ws": w}
        for b in sorted(BAD_WS):
            yield {"f": list(f), "args": [["c", ["t", "x"]]] if len(b) % 2 else [], "kw": [["id", S("i")]], "ws": b}


def strat():
    arg = gen.weighted((4, c14.node(2).map(lambda n: ["c", n])), (3, st.lists(st.tuples(c15.NAME, c15.VAL).map(list), max_size=4).map(lambda l: ["D", l])), (1, st.sampled_from(sorted(c14.INVALID)).map(lambda k: ["bad", k])))
    okarg = gen.weighted((4, c14.node(2).map(lambda n: ["c", n])), (3, st.lists(st.tuples(c15.NAME, c15.VAL).map(list), max_size=4).map(lambda l: ["D", l])))
    kwname = gen.weighted((6, c15.KWNAME), (2, st.sampled_from(["name", "args", "kwargs", "add_ws", "cls", "type", "_name", "self", "_add_ws_", "_x", "attrs", "children", "tag", "x", "key", "f", "value"])))
    kw = st.lists(st.tuples(kwname, c15.VAL).map(list), max_size=5, unique_by=lambda t: t[0])
    ws = gen.weighted((5, st.none()), (2, st.booleans()), (1, st.sampled_from(sorted(BAD_WS))))
    many = st.tuples(gen.sizes(4, 80, 8), okarg).map(lambda t: [t[1]] * t[0])
    return st.fixed_dictionaries({"f": st.sampled_from(FUNCS).map(list), "args": gen.weighted((6, st.lists(okarg, max_size=5)), (1, st.lists(arg, max_size=3)), (1, many)), "kw": kw, "ws": ws})


# -------------------------------------------------------------- the set of functions itself
def test_modules(case, ctx):
    import inspect

    mod = case["mod"]
    m = getattr(htmltools, mod)
    cat = gen.CAT[mod]
    for name in getattr(m, "__all__", []):
        expect(callable(getattr(m, name, None)), f"{mod}.__all__ names {name}, which is missing")
    for name, f in sorted(vars(m).items()):
        if name.startswith("_") or not inspect.isfunction(f) or f.__module__ != m.__name__:
            continue
        if name not in cat:  # a helper, or an element this check knows nothing about
            try:
                t = f()
            except Exception:
                continue
            if type(t) is not Tag:
                continue
        t = f()
        expect(type(t) is Tag, f"{mod}.{name}() is not a Tag")
        expect_eq(t.name, name[:-1] if name.endswith("_") else name, f"{mod}.{name}() creates another element")
        expect(t.add_ws is (t.name not in gen.INLINE), f"{mod}.{name}(): default of _add_ws", got=t.add_ws)
    for name in TOP if mod == "tags" else []:
        expect(name in htmltools.__all__, f"htmltools.__all__ lacks {name}")
    ns = {}
    exec("from htmltools import *", ns)
    for name in TOP:
        t = ns[name]("x")
        expect(t.name == name and t.add_ws is cat.get(name, gen.CAT["tags"][name])[1] if mod == "tags" else True, f"from htmltools import *: {name}")
    ctx.nontrivial()


# ------------------------------------------------------- every attribute, every child element
VALUES = ["v", "", " ", "true", "false", "on", "a b", "<&>", 0, 1, -2, 1.5, True, False, None, HTML("<h>"), "1", "#a", "_blank", "utf-8", "text/javascript", "auto", "c;d:e"]


def test_names(case, ctx):
    mod, fname, elem, ws = case["f"]
    f = func(mod, fname)

    def both(what, *args, **kw):
        got, want = outcome(lambda: f(*args, **kw)), outcome(lambda: Tag(elem, *args, _add_ws=ws, **kw))
        if got[0] != "ok" or want[0] != "ok" or not same(got[1], want[1]):
            fail(f"{mod}.{fname}({what}) differs from the Tag constructor", got=vars(got[1]) if got[0] == "ok" else got, want=vars(want[1]) if want[0] == "ok" else want, args=args, kw=kw)

    for i, a in enumerate(names.ATTRS):
        vs = VALUES if case["deep"] else [VALUES[(i + case["i"] + j * 5) % len(VALUES)] for j in range(5)]
        for j, v in enumerate(vs):
            both(a, **{a: v})
            if j < 2:
                both("dict: " + a, {a: v})
                both("child, " + a, "x", Tag("i"), **{a: v, "id": "q"})
                b = names.ATTRS[(i * 7 + case["i"] * 13 + j) % len(names.ATTRS)]
                both(f"{a}, {b}", {a: v}, **{b: "w"})
    both("all attributes", "x", **{a: VALUES[(i + case["i"]) % len(VALUES)] for i, a in enumerate(names.ATTRS)})
    every = [Tag(n) for n in gen.HTML_NAMES]
    for n in gen.HTML_NAMES + gen.SVG_NAMES + ["my-elem", "X"]:
        n = n[:-1] if n.endswith("_") else n
        c = Tag(n, "t", class_="c", _add_ws=len(n) % 2 == 0)
        both("child <" + n + ">", c)
        both("children with <" + n + ">", "a", c, None, [c, " "], {"id": "i"})
    both("all elements as children", *every)
    for t in ("x", "", " ", "\n", "  x  ", "\n x\n", "<b>", "a" * 300, 0, 1.0, True, HTML(""), HTML(" h "), None):
        both("text", t)
        both("texts", t, "y", t)
    ctx.nontrivial()
    ctx.label(mod)


def cases_names(tier):
    for i, f in enumerate(FUNCS):
        yield {"f": list(f), "i": i, "deep": tier != "quick"}


CHECKS = [
    Check("every function x every attribute and child element", test_names, cases=cases_names),
    Check("modules", test_modules, cases=lambda tier: [{"mod": "tags"}, {"mod": "svg"}]),
    Check("every function x fixed argument lists", test_call, cases=cases_all),
    Check("functions x generated argument lists", test_call, strategy=strat, quick=600, thorough=30000),
]
