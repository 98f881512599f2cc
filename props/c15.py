"""C15 Attribute names and values are normalised and merged in argument order."""
import collections
import copy
import html as _html

from hypothesis import strategies as st

import htmltools
from htmltools import HTML, Tag, TagList, consolidate_attrs, svg, tags
from htmltools._core import TagAttrDict
from vfw import gen, names
from vfw.build import Str, build
from vfw.core import Check, expect, fail
from vfw.deps import snap


class MyInt(int):
    def __str__(self):
        return "int<%d>" % int(self)


MyStr = Str


class MyDict(dict):
    pass


def live(v):
    k, x = v
    return HTML(x) if k == "h" else MyInt(x) if k == "ni" else MyStr(x) if k == "ss" else x


def raw_name(x):
    """Independent restatement: one trailing underscore goes, the others become hyphens."""
    cs = list(x)
    if cs and cs[-1] == "_":
        cs.pop()
    return "".join("-" if c == "_" else c for c in cs)


def text(v):
    """(is markup, text) of one value; None when it is dropped."""
    k, x = v
    if k in ("s", "ss"):
        return (False, x)
    if k == "h":
        return (True, x)
    if k == "ni":
        return (False, "int<%d>" % x)
    if x is None or x is False:
        return None
    if x is True:
        return (False, "")
    return (False, str(x))


def merged(pairs):
    """Ordered name -> list of pieces for one call."""
    out = {}
    for a, v in pairs:
        t = text(v)
        if t is not None:
            out.setdefault(raw_name(a), []).append(t)
    return out


def check_attrs(attrs, model, msg):
    got = list(attrs.items())
    if [k for k, _ in got] != list(model):
        fail(msg + ": names or their order", got=got, want=list(model.items()))
    for k, v in got:
        pieces = model[k]
        if any(h for h, _ in pieces):
            if len(pieces) == 1:
                ok = isinstance(v, HTML) and v.as_string() == pieces[0][1]
            else:
                ok = isinstance(v, HTML) and _html.unescape(v.as_string()) == " ".join(_html.unescape(t) if h else t for h, t in pieces)
        else:
            ok = isinstance(v, str) and str.__eq__(v, " ".join(t for _, t in pieces))
        if not ok:
            fail(f"{msg}: value of {k!r}", got=(type(v).__name__, str(v)), want=pieces, all=got)
        # lookups agree with the iteration
        expect(attrs[k] is v and attrs.get(k) is v and k in attrs, f"{msg}: lookup of {k!r}")
    expect(len(attrs) == len(model), f"{msg}: len()")


def args_of(spec):
    """[["D", [[name, value], ...], class], ["c", node], ...] -> positional arguments and the pairs they hold."""
    objs, pairs, dicts = [], [], []
    for a in spec:
        if a[0] == "=":  # one of the dicts before it, once more
            if dicts:
                o, ps = dicts[a[1] % len(dicts)]
                objs.append(o)
                pairs += ps
            continue
        if a[0] == "D":
            d = {}
            for n, v in a[1]:
                d[n] = v
            o = {n: live(v) for n, v in d.items()}
            o = [dict, MyDict, collections.OrderedDict, dict][a[2] % 4](o)
            objs.append(o)
            pairs += list(d.items())
            dicts.append((o, list(d.items())))
        elif a[0] == "A":  # an attribute dict of another tag
            o = TagAttrDict(*[{n: live(v)} for n, v in a[1]])
            objs.append(o)
            for n, ps in merged(a[1]).items():
                if len(ps) == 1:
                    pairs.append((n, ["h" if ps[0][0] else "s", ps[0][1]]))
                elif any(h for h, _ in ps):
                    pairs.append((n, ["h", o[n].as_string()]))
                else:
                    pairs.append((n, ["s", " ".join(t for _, t in ps)]))
        else:
            objs.append(build(a[1]))
    return objs, pairs


def kw_of(kw):
    d = {}
    for n, v in kw:
        d[n] = v
    return {n: live(v) for n, v in d.items()}, list(d.items())


def image(objs):
    return [(type(o), list((k, type(v), str(v)) for k, v in o.items())) if isinstance(o, dict) else id(o) for o in objs]


def kids_eq(got, args):
    want = [x for x in args if not isinstance(x, dict)]
    return len(got) == len(want) and all(g is w for g, w in zip(got, want))


def types(attrs):
    return [(k, isinstance(v, HTML), str(v)) for k, v in attrs.items()]


MAKERS = [lambda *a, **k: Tag("x", *a, **k), tags.div, htmltools.span, svg.g, tags.input, lambda *a, **k: Tag("x", *a, _add_ws=False, **k), svg.a, tags.script, svg.linearGradient, lambda *a, **k: Tag("My-El:x", *a, **k)]


def test_attrs(case, ctx):
    objs, pairs = args_of(case["args"])
    kw, kpairs = kw_of(case["kw"])
    before = image(objs)
    make = MAKERS[case["make"] % len(MAKERS)] if isinstance(case["make"], int) else lambda *a, **k: Tag(case["make"], *a, **k)
    model = merged(pairs + kpairs)
    t = make(*objs, **kw)
    expect(image(objs) == before, "building a tag changed its arguments")
    check_attrs(t.attrs, model, "constructor")
    check_attrs(make(*objs, **kw).attrs, model, "constructor, second time")
    ad = TagAttrDict(*[o for o in objs if isinstance(o, dict)], **kw)
    check_attrs(ad, model, "TagAttrDict()")
    # consolidate_attrs
    attrs, kids = consolidate_attrs(*objs, **kw)
    expect(image(objs) == before, "consolidate_attrs() changed its arguments")
    expect(isinstance(attrs, dict) and isinstance(kids, list), "consolidate_attrs() returns a dict and a list", got=(type(attrs), type(kids)))
    expect(kids_eq(kids, objs), "consolidate_attrs(): children", got=kids, args=objs)
    check_attrs(attrs, model, "consolidate_attrs()")
    expect(types(attrs) == types(t.attrs), "consolidate_attrs() differs from the tag's attributes", got=types(attrs), want=types(t.attrs))
    re1 = make(attrs, *kids)
    re2 = make(*kids, attrs)
    re3 = make(*kids, **attrs) if all(not k.startswith("_") and k != "self" for k in attrs) else re1
    for how, r in (("dict first", re1), ("dict last", re2), ("keywords", re3)):
        expect(types(r.attrs) == types(t.attrs), f"tag rebuilt from consolidate_attrs() ({how}): attributes", got=types(r.attrs), want=types(t.attrs))
        expect(r == t, f"tag rebuilt from consolidate_attrs() ({how}) differs", got=vars(r), want=vars(t))
        expect(str(r) == str(t), f"tag rebuilt from consolidate_attrs() ({how}) renders differently", got=str(r), want=str(t))
    a2, k2 = consolidate_attrs(attrs, *kids)
    expect(types(a2) == types(attrs) and kids_eq(k2, kids), "consolidate_attrs() is not idempotent")
    # what is returned is independent of the arguments
    for o in objs:
        if isinstance(o, dict):
            o.clear()
    attrs["zz"] = "1"
    check_attrs(t.attrs, model, "tag after its arguments changed")
    # later updates
    other, om = copy.copy(t), dict(model)
    nt = len(case["ops"])
    for op in case["ops"]:
        k = op[0]
        if k == "update":
            os_, ps = args_of([a for a in op[1] if a[0] in "DA="])
            kw2, kp2 = kw_of(op[2])
            b = image(os_)
            r = t.attrs.update(*os_, **kw2)
            expect(image(os_) == b, "update() changed its arguments")
            for n, v in merged(ps + kp2).items():
                model[n] = v
            for o in os_:
                o.clear()
        elif k == "set":
            t.attrs[op[1]] = live(op[2])
            v = text(op[2])
            if v is not None:
                model[raw_name(op[1])] = [v]
        elif k == "del":
            if model:
                n = list(model)[op[1] % len(model)]
                if op[2]:
                    t.attrs.pop(n)
                else:
                    del t.attrs[n]
                del model[n]
        elif k == "copy":
            check_attrs(other.attrs, om, "the other copy")
            t, other = copy.copy(t) if op[1] else t.tagify(), t
            om = dict(model)
        elif k == "use":
            str(t)
            t.render()
            t.attrs == other.attrs
            t.has_class("q")
            consolidate_attrs(t.attrs, t, q="1")
            Tag("y", t.attrs, {"class": "more"}, id="more")
        check_attrs(t.attrs, model, f"after {k}")
        check_attrs(other.attrs, om, f"another tag after {k}")
    names = [raw_name(a) for a, v in pairs + kpairs if text(v) is not None]
    ctx.nontrivial(len(set(names)) < len(names) or (nt > 0 and bool(names)))
    if len(set(names)) < len(names):
        ctx.label("merged names")
    if len({a for a, _ in pairs + kpairs}) > len({raw_name(a) for a, _ in pairs + kpairs}):
        ctx.label("colliding raw names")
    if any(text(v) is None for _, v in pairs + kpairs):
        ctx.label("dropped values")
    if any(v[0] == "h" for _, v in pairs + kpairs):
        ctx.label("HTML values")
    for op in case["ops"]:
        ctx.label("then " + op[0])


COLL = ["x", "x_", "x__", "x___", "a_b", "a-b", "a_b_", "a-b_", "a__b", "a-_b", "_x", "-x", "__", "class", "class_", "style", "style_", "data_x_y", "data-x-y", "data_x-y_", "X", "X_", "x-", "-", "for", "for_", "id", "id_", "é_", "é"]
ODDNAME = st.builds(lambda c, p: p.replace("C", c), st.characters(min_codepoint=1, max_codepoint=0x24f), st.sampled_from(["C_y", "x_C", "x_yC_", "C_", "C", "_C_"]))
NAME = gen.weighted((6, st.sampled_from(COLL)), (2, st.sampled_from(["x", "x_", "x__"])), (2, st.text(st.sampled_from("ab_-X_:.é"), min_size=1, max_size=8)), (1, gen.ATTRNAME), (1, ODDNAME), (1, st.text(st.one_of(st.characters(max_codepoint=0x2fff, exclude_categories=["Cs"]), st.sampled_from("\U0001f600\U00010400\U0010ffff\u2028"), st.characters(min_codepoint=33, max_codepoint=126), st.just("_")), min_size=1, max_size=5)))
KWNAME = NAME.filter(lambda s: s not in ("_name", "_add_ws", "self"))
VAL = gen.weighted((4, gen.SHORT.map(lambda s: ["s", s])), (1, gen.TEXT.map(lambda s: ["s", s])), (2, st.sampled_from([["v", None], ["v", False], ["v", True], ["s", ""], ["v", 0], ["v", 1], ["v", 0.0], ["v", 1.0]])), (1, gen.NUMBER.map(lambda v: ["v", v])), (1, st.integers(-3, 3).map(lambda v: ["ni", v])),
                   (1, gen.SHORT.map(lambda s: ["ss", s])), (1, gen.TEXT.map(lambda s: ["h", s])))
PAIR = st.tuples(NAME, VAL).map(list)
KWPAIR = st.tuples(KWNAME, VAL).map(list)
MANY = st.tuples(gen.sizes(5, 150, 10), st.lists(NAME, min_size=1, max_size=3), st.lists(VAL, min_size=1, max_size=3)).map(lambda t: [[t[1][i % len(t[1])] if i % 3 else f"k{i}", t[2][i % len(t[2])]] for i in range(t[0])])
PAIRS = gen.weighted((8, st.lists(PAIR, max_size=4)), (1, MANY))
DICT = gen.weighted((6, st.tuples(st.just("D"), PAIRS, st.integers(0, 3)).map(list)), (1, st.tuples(st.just("A"), PAIRS).map(list)))
KID = st.sampled_from([["t", "q"], ["L", [["t", "a"], ["N"]]], ["N"], ["n", 3], ["g", "b", True, [["class", ["s", "z"]]], [["t", "in"]]], ["h", "<u>"], ["T", [["t", "1"], ["t", "2"]]], ["U", []], ["d", {"name": "a", "version": "1"}], ["m", 1]]).map(lambda n: ["c", n])
SAME = st.tuples(st.just("="), st.integers(0, 3)).map(list)
ARGS = gen.weighted((6, st.lists(gen.weighted((8, DICT), (2, KID), (1, SAME)), max_size=6)), (1, st.tuples(gen.sizes(3, 60, 6), st.lists(st.tuples(st.just("D"), st.lists(PAIR, max_size=2), st.just(0)).map(list), min_size=1, max_size=4)).map(lambda t: [t[1][i % len(t[1])] for i in range(t[0])])))
KW = gen.weighted((4, st.lists(KWPAIR, max_size=4)), (2, st.just([])))
OP = gen.weighted((4, st.tuples(st.just("update"), st.lists(gen.weighted((9, DICT), (1, SAME)), max_size=3), gen.weighted((2, st.just([])), (2, st.lists(KWPAIR, max_size=3)))).map(list)), (5, st.tuples(st.just("set"), NAME, VAL).map(list)), (1, st.tuples(st.just("del"), st.integers(0, 9), st.booleans()).map(list)),
                  (1, st.tuples(st.just("copy"), st.booleans()).map(list)), (1, st.just(["use"])))


def strat():
    return st.fixed_dictionaries({"args": ARGS, "kw": KW, "make": st.integers(0, 9), "ops": gen.weighted((3, st.just([])), (4, st.lists(OP, max_size=4)), (1, st.lists(OP, min_size=5, max_size=15)))})


def cases_small(tier):
    """Every pair of (raw name, value) in every pair of positions; every triple over a reduced set."""
    names = ["x", "x_", "x__", "a_b", "a-b", "a_b_"]
    vals = [["s", "p"], ["s", ""], ["s", "p  q "], ["s", "&<"], ["h", "&<"], ["h", ""], ["v", True], ["v", False], ["v", None], ["v", 0], ["v", 1], ["v", 1.5]]
    one = [[n, v] for n in names for v in vals]
    for i, p in enumerate(one):
        for j, q in enumerate(one):
            f = (i + j) % 7
            if f == 0:
                c = {"args": [["D", [p], 0], ["D", [q], 0]], "kw": [], "ops": []}
            elif f == 1:
                c = {"args": [["D", [p], 0]], "kw": [q], "ops": []}
            elif f == 2:
                c = {"args": [], "kw": [p, q], "ops": []}
            elif f == 3:
                c = {"args": [["D", [p, q], 0]], "kw": [], "ops": []}
            elif f == 4:
                c = {"args": [["D", [p], 0]], "kw": [], "ops": [["set", q[0], q[1]]]}
            elif f == 5:
                c = {"args": [["D", [p], 0]], "kw": [], "ops": [["update", [["D", [q], 0]], []]]}
            else:
                c = {"args": [["D", [p], 0]], "kw": [], "ops": [["update", [["D", [["y", ["s", "1"]]], 0]], [q]]]}
            yield {**c, "make": (i * 7 + j) % 8}
    small = [[n, v] for n in ("x", "x_", "y") for v in (["s", "p"], ["h", "&"], ["v", None], ["v", True], ["v", 2])]
    for i, p in enumerate(small):
        for j, q in enumerate(small):
            for k, r in enumerate(small):
                f = (i + j + k) % 3
                if f == 0:
                    c = {"args": [["D", [p], 0], ["D", [q], 0]], "kw": [r], "ops": []}
                elif f == 1:
                    c = {"args": [["D", [p], 0], ["D", [q], 0], ["c", ["t", "k"]], ["D", [r], 0]], "kw": [], "ops": [["update", [["D", [q], 0], ["D", [r], 0]], []]]}
                else:
                    c = {"args": [["D", [p], 0]], "kw": [q], "ops": [["set", r[0], r[1]], ["update", [["D", [p], 0]], [r]]]}
                yield {**c, "make": k % 8}


def cases_chars(tier):
    """Every character of the first planes of Unicode in a name, around underscores."""
    cs = [chr(i) for i in range(1, 0x250)] + list("\u2028\u2029\u3000\ufeff\uffff\U0001f600\U0010ffff\u0130\u017f\u212a\ufb01")
    for i, c in enumerate(cs):
        d = [[n, ["s", "v%d" % j]] for j, n in enumerate([c + "_y", "x_" + c, "x_y" + c + "_", c + c + "_z_", "p__" + c])]
        yield {"args": [["D", d[:3], 0], ["D", d[2:], 0]], "kw": d[1:4] if i % 2 else [], "ops": [["set", "u_" + c, ["s", "w"]], ["update", [["D", d[:1], 0]], []]], "make": i % 10}


def test_names(case, ctx):
    """Every attribute on every element: merged, overwritten, dropped, in every position."""
    nm, i = case["name"], case["i"]
    vals = [["s", "p"], ["s", ""], ["s", "p; q"], ["s", "p"], ["h", "&<"], ["v", True], ["v", False], ["v", None], ["v", 0], ["v", 1.5], ["s", "true"]]
    for k, a in enumerate(names.ATTRS):
        b = names.ATTRS[(k * 3 + i * 7 + 1) % len(names.ATTRS)]
        p, q, r = [a, vals[(i + k) % 11]], [a, vals[(i * 3 + k * 5 + 1) % 11]], [a, vals[(i * 5 + k * 7 + 2) % 11]]
        o = [b, vals[(i + k * 2) % 11]]
        kwo = [o] if o[0] != a else []
        f = (i + k) % 6
        c = (
            {"args": [["D", [p], 0], ["D", [o, q], 0]], "kw": [], "ops": [["update", [["D", [r], 0]], []]]},
            {"args": [["D", [p], 0], ["c", ["t", "k"]]], "kw": [q] + kwo, "ops": [["set", a, r[1]]]},
            {"args": [["D", [o], 0], ["D", [p], 0], ["D", [q], 0], ["D", [r], 0]], "kw": [], "ops": []},
            {"args": [["D", [p] + kwo, 0]], "kw": [], "ops": [["update", [["D", [q], 0], ["D", [r], 0]], []], ["set", a, p[1]]]},
            {"args": [], "kw": [p] + kwo, "ops": [["set", a, q[1]], ["set", b, r[1]], ["update", [["D", [p], 0]], [q]]]},
            {"args": [["c", ["t", "k"]], ["D", [p], 0]], "kw": [q], "ops": [["update", [], [r]], ["update", [["D", [o], 0]], []]]},
        )[f]
        test_attrs({**c, "make": nm}, ctx)
    ctx.nontrivial()


CHECKS = [
    Check("every attribute and element", test_names, cases=names.cases),
    Check("characters", test_attrs, cases=cases_chars),
    Check("pairs and triples", test_attrs, cases=cases_small),
    Check("argument lists and updates", test_attrs, strategy=strat, quick=800, thorough=40000),
]
