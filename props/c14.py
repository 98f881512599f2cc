"""C14 Child lists hold only normalised nodes after any sequence of operations."""
import collections
import copy

from hypothesis import strategies as st

import htmltools
from htmltools import HTML, HTMLDependency, Tag, TagList, is_tag_child, is_tag_node, tags, svg
from vfw import gen, names
from vfw.build import Expander, Meta, Repr, Str, build
from vfw.core import Check, expect, fail

Pair = collections.namedtuple("Pair", "a b")


class MyList(list):
    pass


class MyInt(int):
    def __str__(self):
        return "int<%d>" % int(self)

    __repr__ = object.__repr__


class MyFloat(float):
    def __str__(self):
        return "float<%r>" % float(self)


MyStr = Str


class Boom(Exception):
    pass


class Idx:
    def __init__(self, i):
        self.i = i

    def __index__(self):
        return self.i


INVALID = {
    "object": object, "bytes": lambda: b"ab", "bytearray": lambda: bytearray(b"x"), "set": lambda: {"a"}, "frozenset": lambda: frozenset(["a"]), "dict": lambda: {"a": "b"},
    "emptydict": dict, "emptyset": set, "range": lambda: range(2), "gen": lambda: (x for x in ["a"]), "iter": lambda: iter(["a"]), "lambda": lambda: (lambda: 1), "module": lambda: copy, "ellipsis": lambda: ...,
    "notimpl": lambda: NotImplemented, "keys": lambda: {"a": 1}.keys(), "map": lambda: map(str, [1]), "deque": lambda: collections.deque(["a"]), "userlist": lambda: collections.UserList(["a"]), "exc": lambda: ValueError("x"),
    "memview": lambda: memoryview(b"a"), "emptybytes": lambda: b"",
}


class Env:
    """The objects of one history with the model's view of each."""

    def __init__(self):
        self.objs = []  # TagList or Tag
        self.model = []  # list of expected elements
        self.memo = {}


def value(n, env):
    """-> (object handed over, flattened expected elements, valid?)"""
    k = n[0]
    if k == "!":
        return INVALID[n[1]](), [], False
    if k == "n":
        v = n[1]
        return v, [str(v)], True
    if k == "ni":
        v = MyInt(n[1]) if n[1] % 2 else MyFloat(n[1])
        return v, [str(v)], True
    if k == "ss":
        v = MyStr(n[1])
        return v, [v], True
    if k == "N":
        return None, [], True
    if k in "LUTMP":
        vs = [value(c, env) for c in n[1]]
        ok = all(v[2] for v in vs)
        objs = [v[0] for v in vs]
        els = [e for v in vs for e in v[1]]
        if k == "L":
            return objs, els, ok
        if k == "M":
            return MyList(objs), els, ok
        if k == "P":
            objs = (objs + [None, None])[:2]
            return Pair(*objs), [e for v in vs[:2] for e in v[1]], all(v[2] for v in vs[:2])
        if k == "U":
            return tuple(objs), els, ok
        if not ok:  # a TagList cannot hold it
            return objs, els, ok
        return TagList(*objs), els, ok
    if k == "D":  # many levels deep
        v, e, ok = value(n[2], env)
        for i in range(n[1]):
            c = n[3][i % len(n[3])]
            v = [v] if c == "L" else (v,) if c == "U" else [None, v] if c == "N" or not ok else TagList(v)
        return v, e, ok
    if k == "W":  # many items wide
        v = [value(n[2][i % len(n[2])], env) for i in range(n[1])]
        if n[3] == "L":
            return [x[0] for x in v], [e for x in v for e in x[1]], all(x[2] for x in v)
        return tuple(x[0] for x in v), [e for x in v for e in x[1]], all(x[2] for x in v)
    if k == "ref":  # one of the lists or tags of this history
        i = n[1] % len(env.objs)
        o = env.objs[i]
        if isinstance(o, Tag):
            if n[2]:
                return o.children, list(env.model[i]), True
            return o, [o], True
        return o, list(env.model[i]), True
    if k == "same":  # the same object handed over several times
        if n[1] not in env.memo:
            env.memo[n[1]] = [Tag("i", str(n[1])), HTML("<s>"), Meta(n[1]), Repr("r"), HTMLDependency("d", "1"), Expander("list", [["t", "x"]])][n[1] % 6]
        return env.memo[n[1]], [env.memo[n[1]]], True
    o = build(n)
    return o, [o], True


def frozen(v):
    """Deep image of an argument container, by identity of the leaves."""
    if isinstance(v, (list, tuple, TagList)):
        return (type(v), [frozen(x) for x in v])
    return (type(v), v if isinstance(v, (str, int, float)) else id(v))


def same(got, want):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if isinstance(w, HTML):
            if not (isinstance(g, HTML) and g.as_string() == w.as_string()):
                return False
        elif isinstance(w, str):
            if not (isinstance(g, str) and str.__eq__(g, w)):
                return False
        elif g is not w:
            return False
    return True


def show(x):
    return [(type(v).__name__, str(v)[:30] if isinstance(v, (str, HTML)) else "@%x" % id(v)) for v in x][:60]


def verify(env, msg, kids):
    for i, (o, m) in enumerate(zip(env.objs, env.model)):
        c = o.children if isinstance(o, Tag) else o
        expect(isinstance(c, TagList), "the children are not a TagList", type=type(c))
        els = list(c)
        if not same(els, m):
            fail(f"{msg}: object {i} ({type(o).__name__}) holds the wrong children", got=show(els), want=show(m))
        expect(len(c) == len(m), "len() of the list")
        for e in els:
            expect(is_tag_node(e), "a stored element is not a tag node", element=e)
            expect(not isinstance(e, (list, tuple, TagList, int, float)) and e is not None, "a stored element is not normalised", element=e)
    # the aliases of tags' children
    for o, c in kids:
        expect(o.children is c, "an operation replaced a tag's list of children")


def attempt(fn, ok, errs, msg, arg):
    try:
        r = fn()
    except errs as e:
        if ok:
            fail(f"{msg}: rejected a supported argument: {type(e).__name__}: {e}", arg=arg)
        return False, None
    except Exception as e:
        fail(f"{msg}: raised {type(e).__name__}: {e}", arg=arg)
    if not ok:
        fail(f"{msg}: accepted an unsupported argument", arg=arg)
    return True, r


def raising(objs, exc):
    yield from objs
    raise exc("stop")


def test_history(case, ctx):
    env = Env()
    env.objs.append(TagList())
    env.model.append([])
    kids = []
    nt = 0
    seen_bad = False

    def new(o, m):
        env.objs.append(o)
        env.model.append(list(m))
        if isinstance(o, Tag):
            kids.append((o, o.children))

    for op in case["ops"]:
        k = op[0]
        i = op[1] % len(env.objs)
        o, m = env.objs[i], env.model[i]
        tgt = o.children if isinstance(o, Tag) and (len(op) < 3 or op[2]) else o
        lst = o.children if isinstance(o, Tag) else o
        msg = f"{k}"
        late = []
        if k in ("new", "tag"):
            vs = [value(n, env) for n in op[3]]
            ok = all(v[2] for v in vs)
            objs, els = [v[0] for v in vs], [e for v in vs for e in v[1]]
            before = [frozen(v) for v in objs]
            late = objs
            if k == "new":
                done, r = attempt(lambda: TagList(*objs), ok, TypeError, "TagList()", objs)
            else:
                # dicts are attributes, wherever they stand
                ok = all(v[2] or type(v[0]) is dict for v in vs)
                args = list(objs)
                for pos, d in op[4]:
                    args.insert(pos % (len(args) + 1), dict(d))
                f = [lambda *a, **kw: Tag("x", *a, **kw), tags.div, htmltools.span, svg.g, htmltools.br, htmltools.tags.script][op[1] % 6] if len(op) < 6 else lambda *a, **kw: Tag(op[5], *a, **kw)
                done, r = attempt(lambda: f(*args, id="q"), ok, TypeError, "Tag()", objs)
                if done:
                    expect(isinstance(r, Tag), "not a tag")
            expect([frozen(v) for v in objs] == before, f"{msg} changed its arguments")
            if done:
                new(r, els)
                if k == "new":
                    expect(type(r) is TagList, "not a TagList")
        elif k in ("append", "insert"):
            vs = [value(n, env) for n in op[3]]
            ok = all(v[2] for v in vs)
            objs, els = [v[0] for v in vs], [e for v in vs for e in v[1]]
            before = [frozen(v) for v in objs]
            late = objs
            if k == "append":
                done, r = attempt(lambda: tgt.append(*objs), ok, TypeError, "append()", objs)
                if done:
                    m.extend(els)
            else:
                vs = vs[:1]
                ok, objs, els, before, late = vs[0][2], [vs[0][0]], vs[0][1], before[:1], late[:1]
                j = op[4] if op[5] < 3 else (op[4] % (len(m) + 3)) - 1
                idx = Idx(j) if op[5] == 1 else j
                done, r = attempt(lambda: tgt.insert(idx, objs[0]), ok, TypeError, f"insert({j})", objs)
                if done:
                    m[j:j] = els
            refs = any(v is lst for v in objs) or any(n[0] in "LUTMPDW" for n in op[3])
            if not refs:
                expect([frozen(v) for v in objs] == before, f"{msg} changed its arguments")
            expect(r is None, f"{k} returned something", r=r)
        elif k in ("extend", "add", "radd", "iadd"):
            how = op[4]
            vs = [value(n, env) for n in op[3]]
            ok = all(v[2] for v in vs)
            objs, els = [v[0] for v in vs], [e for v in vs for e in v[1]]
            errs = TypeError
            own = False
            if how == "list":
                arg = objs
            elif how == "tuple":
                arg = tuple(objs)
            elif how == "mylist":
                arg = MyList(objs)
            elif how == "taglist" and ok:
                arg = TagList(*objs)
            elif how == "gen":
                arg = (v for v in objs)
            elif how == "raise":
                arg, ok, errs = raising(objs, Boom), False, (Boom, TypeError)
            elif how == "raise_type":
                arg, ok = raising(objs, TypeError), False
            elif how == "iter":
                arg = iter(objs)
            elif how == "deque":
                arg = collections.deque(objs)
            elif how == "set":
                arg, els, ok = frozenset(["only"]), ["only"], True
            elif how == "dictkeys":
                arg, els, ok = {"k1": 1, "k2": 2}, ["k1", "k2"], True
            elif how == "self":
                arg, els, ok, own = lst, list(m), True, True
            elif how == "other":
                j = op[5] % len(env.objs)
                x = env.objs[j]
                arg, els, ok, own = (x.children if isinstance(x, Tag) else x), list(env.model[j]), True, True
            elif how in ("str", "mystr"):
                arg = "".join(e for e in els if isinstance(e, str)) or "two words"
                if how == "mystr":
                    arg = MyStr(arg)
                els, ok = [arg], True
            elif how == "html":
                arg = HTML("".join(e for e in els if isinstance(e, str)) or "<b>x</b>y")
                els, ok = [arg], True
            elif how == "emptystr":
                arg = ""
                els, ok = [""], True
            elif how in ("int", "None", "object"):
                arg, ok = {"int": 5, "None": None, "object": object()}[how], False
            else:
                arg = objs
            before = frozen(arg) if how in ("list", "tuple", "mylist", "taglist") else None
            late = [arg]
            if k == "extend":
                done, r = attempt(lambda: tgt.extend(arg), ok, errs, f"extend({how})", arg)
                if done:
                    m.extend(els)
            elif k == "add":
                done, r = attempt(lambda: lst + arg, ok, errs, f"TagList + {how}", arg)
                if done:
                    expect(type(r) is TagList, f"TagList + {how} is not a TagList", type=type(r))
                    new(r, m + els)
            elif k == "radd":
                if how in ("self", "other", "taglist"):
                    done, r = attempt(lambda: arg + lst, ok, errs, f"{how} + TagList", arg)
                else:
                    done, r = attempt(lambda: arg + lst, ok, errs, f"{how} + TagList", arg)
                if done:
                    expect(type(r) is TagList, f"{how} + TagList is not a TagList", type=type(r))
                    new(r, els + m)
            else:

                def f():
                    nonlocal lst
                    if op[5] % 2 and isinstance(o, Tag):
                        o.children += arg
                        return o.children
                    lst += arg
                    return lst

                done, r = attempt(f, ok, errs, f"TagList += {how}", arg)
                if done:
                    expect(type(r) is TagList, "+= gives something that is not a TagList")
                    m.extend(els)
            if before is not None and not own and not any(n[0] == "ref" or n[0] in "LUTMPDW" for n in op[3]):
                expect(frozen(arg) == before, f"{msg} changed its argument")
        elif k == "slice":
            s = slice(*op[3])
            r = lst[s]
            expect(type(r) is TagList, "a slice is not a TagList", type=type(r))
            expect(r is not lst, "a slice is the list itself")
            new(r, m[s])
            done = True
        elif k == "item":
            for j in range(-len(m), len(m)):
                expect(same([lst[j]], [m[j]]), "x[i]")
            done = True
        elif k == "mul":
            n = op[3]
            if len(m) * max(1, n) > 400:
                continue
            if op[4] == 0:
                r = lst * n
            elif op[4] == 1:
                r = n * lst
            else:
                r = lst
                r *= n
                m[:] = m * n
            expect(type(r) is TagList, "repetition is not a TagList", type=type(r))
            if op[4] < 2:
                expect(r is not lst, "repetition gives the list itself")
                new(r, m * n)
            done = True
        elif k == "copy":
            r = [lambda: lst.copy(), lambda: copy.copy(lst), lambda: TagList(lst), lambda: TagList(*lst), lambda: lst[:]][op[3] % 5]()
            expect(type(r) is TagList, "a copy is not a TagList")
            new(r, m)
            done = True
        # an argument changed later does not reach what was stored
        verify(env, msg, kids)
        if k in ("new", "tag", "append", "insert", "extend", "add", "radd", "iadd"):
            if done:
                for n in op[3]:
                    pass
                if k in ("new", "append", "insert", "tag"):
                    for v in late:
                        expect(is_tag_child(v) is True or (k == "tag" and isinstance(v, dict)), "is_tag_child() denies an accepted value", value=v)
                else:
                    for v in objs:
                        if how in ("list", "tuple", "mylist", "taglist", "gen", "iter", "deque"):
                            expect(is_tag_child(v) is True, "is_tag_child() denies an accepted value", value=v)
                    if how in ("str", "html", "mystr", "emptystr", "self", "other", "list", "tuple"):
                        expect(is_tag_child(arg) is True, "is_tag_child() denies an accepted value", value=arg)
                for v in late:
                    if isinstance(v, list) and len(v) < 50:
                        v.append(object())
                        v.insert(0, None)
                    if type(v) is TagList and not any(v is (x.children if isinstance(x, Tag) else x) for x in env.objs):
                        v.append("late")
                verify(env, msg + " (argument changed afterwards)", kids)
                nt += any(n[0] in "LUTMPDWNrefn" for n in op[3])
            else:
                seen_bad = True
                nt += 1
    ctx.nontrivial(nt >= 1 and len(case["ops"]) >= 2)
    for op in case["ops"]:
        ctx.label(op[0])
    if seen_bad:
        ctx.label("rejected operation")


LEAF = gen.weighted(
    (3, gen.SHORT.map(lambda s: ["t", s])), (1, gen.TEXT.map(lambda s: ["t", s])), (1, gen.SHORT.map(lambda s: ["h", s])), (3, gen.NUMBER.map(lambda v: ["n", v])), (1, st.integers(-3, 99).map(lambda v: ["ni", v])),
    (1, gen.SHORT.map(lambda s: ["ss", s])), (2, st.just(["N"])), (1, gen.SHORT.map(lambda s: ["r", s])), (1, st.sampled_from([["m", 1], ["m"], ["d", {"name": "a", "version": "1"}], ["x", "list", [["t", "q"]]], ["X", "list", []], ["hc", [["t", "z"]]]])),
    (2, st.sampled_from([["g", "b", True, [], []], ["g", "div", False, [["class", ["s", "c"]]], [["t", "q"], ["N"]]]])), (1, st.tuples(gen.TAGNAME, st.booleans()).map(lambda t: ["g", t[0], t[1], [], []])), (2, st.integers(0, 11).map(lambda i: ["same", i])), (2, st.tuples(st.just("ref"), st.integers(0, 9), st.booleans()).map(list)),
)
BAD = st.sampled_from(sorted(INVALID)).map(lambda k: ["!", k])


@st.composite
def node(draw, depth=3, bad=0):
    k = draw(st.integers(0, 19))
    if bad and k < bad:
        return draw(BAD)
    if k < 11 or depth <= 0:
        return draw(LEAF)
    if k < 18:
        return [draw(st.sampled_from("LUTLUTMP")), draw(st.lists(node(depth - 1, bad), max_size=4))]
    if k == 18:
        return ["D", draw(gen.sizes(1, 120, 6)), draw(st.one_of(LEAF, BAD) if bad else LEAF), draw(st.sampled_from(["L", "U", "LUT", "T", "LN", "UTL"]))]
    pat = draw(st.lists(st.one_of(LEAF, st.sampled_from([["L", [["t", "a"], ["N"]]], ["U", [["n", 1]]]])), min_size=1, max_size=3))
    return ["W", draw(gen.sizes(0, 150, 6)), pat, draw(st.sampled_from("LU"))]


GOOD = node()
ANY = gen.weighted((4, GOOD), (1, node(3, 3)))
HOW = st.sampled_from(["list", "list", "list", "tuple", "tuple", "taglist", "taglist", "mylist", "gen", "iter", "raise", "raise_type", "deque", "dictkeys", "set", "self", "self", "other", "other", "str", "str", "mystr", "html", "html", "emptystr", "int", "None", "object"])
HOW_ADD = st.sampled_from(["list", "list", "tuple", "taglist", "mylist", "self", "other", "str", "mystr", "html", "emptystr", "gen", "iter", "int", "None", "object"])
HOW_RADD = st.sampled_from(["list", "list", "tuple", "taglist", "mylist", "self", "other", "str", "str", "mystr", "html", "html", "emptystr", "gen", "int", "None"])
SL = st.one_of(st.integers(-4, 6), st.none(), st.integers(-50, 50))
T = lambda *a: st.tuples(*a).map(list)
SLOT = st.integers(0, 12)
OP = gen.weighted(
    (2, T(st.just("new"), SLOT, st.just(True), st.lists(ANY, max_size=4))),
    (2, T(st.just("tag"), SLOT, st.just(True), st.lists(ANY, max_size=4), st.lists(T(st.integers(0, 5), st.dictionaries(st.sampled_from(["a", "class"]), st.sampled_from(["v", True, None]), max_size=1)), max_size=2))),
    (4, T(st.just("append"), SLOT, st.booleans(), gen.weighted((6, st.lists(ANY, min_size=1, max_size=4)), (1, st.tuples(st.one_of(ANY, st.integers(0, 11).map(lambda i: ["same", i])), st.integers(2, 4), st.lists(ANY, max_size=2)).map(lambda t: [t[0]] * t[1] + t[2])), (1, st.lists(ANY, min_size=5, max_size=12))))),
    (5, T(st.just("insert"), SLOT, st.booleans(), st.lists(ANY, min_size=1, max_size=1), st.one_of(st.integers(-6, 8), st.integers(-200, 200), st.sampled_from([10**30, -10**30, True])), st.integers(0, 5))),
    (5, T(st.just("extend"), SLOT, st.booleans(), st.lists(ANY, max_size=4), HOW, SLOT)),
    (4, T(st.just("iadd"), SLOT, st.booleans(), st.lists(ANY, max_size=4), HOW, SLOT)),
    (3, T(st.just("add"), SLOT, st.just(True), st.lists(ANY, max_size=4), HOW_ADD, SLOT)),
    (3, T(st.just("radd"), SLOT, st.just(True), st.lists(ANY, max_size=4), HOW_RADD, SLOT)),
    (2, T(st.just("slice"), SLOT, st.just(True), T(SL, SL, st.sampled_from([None, None, 1, 2, -1, -2, 3])))),
    (2, T(st.just("mul"), SLOT, st.just(True), st.integers(-1, 4), st.integers(0, 2))),
    (1, T(st.just("copy"), SLOT, st.just(True), st.integers(0, 4))),
    (1, T(st.just("item"), SLOT, st.just(True))),
)


def strat_history():
    return st.fixed_dictionaries({"ops": gen.weighted((4, st.lists(OP, min_size=1, max_size=6)), (2, st.lists(OP, min_size=4, max_size=14)), (1, st.lists(OP, min_size=10, max_size=30)))})


# ------------------------------------------------------------------- bounded-exhaustive part
SCALARS = [["t", "ab"], ["t", ""], ["h", "<x>"], ["n", 0], ["n", 1.5], ["n", True], ["N"], ["g", "b", True, [], []], ["m"], ["d", {"name": "a", "version": "1"}], ["r", "q"], ["x", "list", []]]


def cases_each(tier):
    """Every operation with every argument shape: a scalar or invalid value at every depth/position."""
    wraps = [lambda n: n, lambda n: ["L", [n]], lambda n: ["U", [n]], lambda n: ["T", [n]], lambda n: ["L", [["t", "p"], n, ["N"]]], lambda n: ["U", [["L", [["n", 3], n]], ["t", "s"]]], lambda n: ["L", []], lambda n: ["M", [n]], lambda n: ["P", [n, n]]]
    vals = SCALARS + [["!", k] for k in sorted(INVALID)]
    pre = [["append", 0, True, [["t", "x"], ["g", "i", True, [], []]]], ["tag", 0, True, [["t", "y"], ["n", 2]], []]]
    for w in wraps:
        for v in vals:
            n = w(v)
            for s in (0, 1):
                ops = [["append", s, True, [n]], ["append", s, False, [["t", "q"], n, ["t", "r"]]]]
                ops += [["insert", s, t, [n], j, 0] for t in (True, False) for j in (-5, -1, 0, 1, 2, 9)]
                ops += [[f, s, True, [["t", "q"], n], how, 0] for f in ("extend", "iadd") for how in ("list", "tuple", "gen", "taglist", "mylist")]
                ops += [["extend", s, False, [n], "list", 0], ["iadd", s, True, [n], "list", 1]]
                ops += [[f, s, True, [n, ["t", "z"]], how, 0] for f in ("add", "radd") for how in ("list", "tuple", "taglist")]
                ops += [["new", s, True, [n, ["t", "w"]]], ["tag", s, True, [["t", "w"], n], [[1, {"a": "b"}]]]]
                for i in range(0, len(ops), 6):
                    yield {"ops": pre + ops[i : i + 6]}
    for s in (0, 1):
        for f in ("extend", "iadd", "add", "radd"):
            for how in ("self", "other", "str", "mystr", "html", "emptystr", "int", "None", "object"):
                for o in (0, 1):
                    yield {"ops": pre + [[f, s, True, [], how, o], [f, s, True, [], how, o], ["item", s, True]]}
        for n in (-1, 0, 1, 2, 3):
            for h in (0, 1, 2):
                yield {"ops": pre + [["mul", s, True, n, h], ["append", 2, True, [["t", "later"]]], ["append", s, True, [["t", "later"]]]]}
        for h in range(5):
            yield {"ops": pre + [["copy", s, True, h], ["append", 2, True, [["t", "later"]]], ["append", s, True, [["L", [["n", 1]]]]], ["slice", s, True, [1, None, None]], ["insert", 3, True, [["N"]], 0, 0], ["append", 3, True, [["n", 4]]]]}


def cases_names(tier):
    """Every element: built with children, changed, and as a child."""
    for i, n in enumerate(names.NAMES):
        g = ["g", n, True, [], [["t", "q"]]]
        for k in range(3):
            v = ([["t", "a"], ["n", 3], ["N"], ["L", [["t", "b"], g]]], [g, ["t", "a"], g], [["U", [["n", 1], ["T", [g, ["t", "z"]]]]]])[k]
            bad = ["!", sorted(INVALID)[(i + k) % len(INVALID)]]
            mk = ["tag", i, True, v, [[k, {"a": "b"}]], n]
            for h in (True, False):
                yield {"ops": [mk, ["append", 1, h, [["t", "x"], ["L", [g]], ["n", 5]]], ["insert", 1, h, [["L", [["t", "i"], g]]], k, 0], ["append", 1, h, [["t", "q"], bad]], ["extend", 1, h, [["t", "e"], g], ["list", "tuple", "taglist"][k], 0], ["insert", 1, h, [bad], 1, 0], ["tag", 0, True, [g, bad], [], n], ["copy", 1, True, k], ["append", 2, h, [["t", "later"]]], ["append", 1, True, [["n", 7]]]]}


CHECKS = [
    Check("every element", test_history, cases=cases_names),
    Check("each operation x each argument shape", test_history, cases=cases_each),
    Check("histories", test_history, strategy=strat_history, quick=900, thorough=40000),
]
