"""C17 Tag context manager restores the display hook and collects children in order."""
import contextlib
import sys

from hypothesis import strategies as st

import htmltools
from htmltools import HTML, Tag, TagList, svg, tags
from vfw import gen, names, nest
from vfw.build import Expander, Repr
from vfw.core import Check, expect, expect_eq, fail

from . import c14


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


class AnyEq:
    """Equal to everything."""

    def __eq__(self, other):
        return True

    __hash__ = None


class ArrayLike:
    """Comparison gives something that has no truth value."""

    def __eq__(self, other):
        return self

    def __bool__(self):
        raise ValueError("ambiguous")

    __hash__ = None


class EqRaises:
    def __eq__(self, other):
        raise RuntimeError("no comparison")

    __hash__ = None


class AnyEqMeta(htmltools.MetadataNode, AnyEq):
    __hash__ = None


class AnyEqInt(int):
    def __eq__(self, other):
        return True

    __hash__ = None


class AnyEqStr(str):
    def __eq__(self, other):
        return True

    __hash__ = None


class BadRepr:
    def _repr_html_(self):
        raise Boom("repr")


class Counting:
    """Self-rendering; a different text each time it is asked."""

    def __init__(self):
        self.n = 0

    def _repr_html_(self):
        self.n += 1
        nest.work()
        return f"<c{self.n}>"


EXCS = {"Boom": Boom, "Base": BaseBoom, "KeyboardInterrupt": lambda m: KeyboardInterrupt(m), "SystemExit": lambda m: SystemExit(m), "GeneratorExit": lambda m: GeneratorExit(m), "TypeError": TypeError, "RuntimeError": RuntimeError, "StopIteration": StopIteration, "AttributeError": AttributeError}


ATTRS = [{"class": "k"}, {"id": "i"}, {"id": 1, "class": "a b", "style": "x:y;", "hidden": True, "data_z": HTML("&amp;"), "onclick": "f()"}, {}, {"name": "", "title": "<\""}]


class Recorder:
    """A display hook that records what it is given, and raises at given calls."""

    def __init__(self, i, raise_at):
        self.i, self.raise_at, self.log = i, raise_at, []

    def hook(self, value):
        self.log.append(value)
        if len(self.log) in self.raise_at:
            raise Boom(f"hook {self.i}")

    def __call__(self, value):
        self.hook(value)


def elems(v, spec, env):
    """(value, elements appended to a tag, exception type or None)"""
    k = spec[0]
    if k == "r" or k == "h":
        return v, [HTML(spec[1])], None
    return v, None, None


class Run:
    def __init__(self, case):
        self.tags, self.kids, self.state = [], [], []  # tag objects, expected children, new/active/done
        self.recs = []
        self.rlog = []
        for i, r in enumerate(case["hooks"]):
            rec = Recorder(i, r["raise_at"])
            self.recs.append((rec, [rec.hook, rec, lambda v, rec=rec: rec.hook(v)][r["kind"] % 3]))
            self.rlog.append([])
        self.cur = ("rec", 0)  # what the model says is installed
        self.active = []  # model: indices of active tags
        self.env = c14.Env()
        self.env.objs.append(TagList("q", Tag("u")))
        self.env.model.append(list(self.env.objs[0]))
        self.n = {"with": 0, "exc": 0, "invalid": 0, "reenter": 0, "depth": 0}

    # -- the model's display hook
    def deliver(self, dest, value, els, err):
        """els: elements a tag would store, err: exception class a tag would raise."""
        kind, i = dest
        if kind == "rec":
            self.rlog[i].append(value)
            return Boom if len(self.rlog[i]) in self.recs[i][0].raise_at else None
        if err is None:
            self.kids[i].extend(els)
        return err

    def value(self, n):
        k = n[0]
        if k == "none":
            return None, [], None
        if k == "ell":
            return ..., [], None
        if k == "odd":
            name = n[1]
            v = {"anyeq": AnyEq, "array": ArrayLike, "eqraises": EqRaises, "badrepr": BadRepr, "meta": AnyEqMeta, "anyint": lambda: AnyEqInt(5), "anystr": lambda: AnyEqStr("s"), "counting": Counting}[name]()
            if name in ("anyeq", "array", "eqraises"):
                return v, [], TypeError
            if name == "badrepr":
                return v, [], Boom
            return v, {"meta": [v], "anyint": ["5"], "anystr": [v], "counting": [HTML("<c1>")]}[name], None
        if k == "tagref":
            if not self.tags:
                return None, [], None
            t = self.tags[n[1] % len(self.tags)]
            return t, [t], None
        v, els, ok = c14.value(n, self.env)
        if v is ...:
            return v, [], None
        if isinstance(v, (Repr, HTML)):
            return v, [HTML(v._repr_html_())], None
        return v, els, None if ok else TypeError

    def check_tags(self):
        for t, k in zip(self.tags, self.kids):
            if not same(list(t.children), k):
                fail("a block's tag holds the wrong children", got=c14.show(t.children), want=c14.show(k), tag=t.name)
        for (r, _), log in zip(self.recs, self.rlog):
            if len(r.log) != len(log) or any(a is not b for a, b in zip(r.log, log)):
                fail("what the outer display hook received", got=[type(v).__name__ for v in r.log], want=[type(v).__name__ for v in log])

    def block(self, stmts):
        for s in stmts:
            sig = self.stmt(s)
            if sig:
                return sig

    def stmt(self, s):
        k = s[0]
        if k == "show":
            v, els, err = self.value(s[1])
            hook = sys.displayhook
            if err is not None:
                self.n["invalid"] += 1
            want = self.deliver(self.cur, v, els, err)
            try:
                sys.displayhook(v)
            except BaseException as e:
                if want is None:
                    fail(f"displaying a value raised {type(e).__name__}: {e}", value=type(v))
                expect(isinstance(e, want), f"displaying an invalid value raised {type(e).__name__} instead of {want.__name__}", value=type(v))
                expect(sys.displayhook is hook, "a rejected value changed the display hook")
                self.check_tags()
                raise
            if want is not None:
                fail(f"displaying a value did not raise {want.__name__}", value=type(v))
            expect(sys.displayhook is hook, "displaying a value changed the display hook")
        elif k == "append":
            if self.active:
                i = self.active[-1]
                self.tags[i].append("direct")
                self.kids[i].append("direct")
        elif k == "raise":
            self.n["exc"] += 1
            raise EXCS[s[1]]("raised by the block")
        elif k == "return":
            return "return"
        elif k == "sethook":
            i = s[1] % len(self.recs)
            sys.displayhook = self.recs[i][1]
            self.cur = ("rec", i)
        elif k == "try":
            try:
                return self.block(s[1])
            except Exception as e:
                if type(e).__name__ == "Violation":
                    raise
        elif k == "tryall":
            try:
                return self.block(s[1])
            except BaseException as e:
                if type(e).__name__ in ("Violation", "_Abort"):
                    raise
        elif k == "reenter":
            if self.active:
                i = self.active[s[1] % len(self.active)]
                t, hook, kids = self.tags[i], sys.displayhook, None
                self.n["reenter"] += 1
                ran = False
                try:
                    if s[2] == 0:
                        with t:
                            ran = True
                            sys.displayhook("inner")
                    elif s[2] == 1:
                        t.__enter__()
                    else:
                        with contextlib.ExitStack() as stack:
                            stack.enter_context(Tag("tmp")) if False else None
                            stack.enter_context(t)
                            ran = True
                except Exception as e:
                    if ran:
                        raise
                    expect(isinstance(e, RuntimeError), f"entering an active tag raised {type(e).__name__}: {e}")
                else:
                    fail("entering a tag whose block is active did not raise")
                expect(sys.displayhook is hook, "entering an active tag changed the display hook")
                if s[3]:
                    raise RuntimeError("re-entered")
        elif k == "with":
            return self.with_(s)
        elif k == "switch":  # a block inside a frame that swaps the hook and puts it back
            old, oldcur = sys.displayhook, self.cur
            try:
                self.stmt(["sethook", s[1]])
                return self.block(s[2])
            finally:
                sys.displayhook, self.cur = old, oldcur

    def with_(self, s):
        _, how, kids, body = s
        self.n["with"] += 1
        objs, els = [], []
        for n in kids:
            v, e, ok = c14.value(n, self.env)
            objs.append(v)
            els += e
        make = [lambda *a: Tag("t%d" % len(self.tags), *a), lambda *a: Tag("x", *a, _add_ws=False), tags.div, htmltools.span, svg.g, tags.script, tags.br, tags.html, svg.linearGradient, lambda *a: Tag("My-El:x", *a)]
        t = (make[how[0] % len(make)] if isinstance(how[0], int) else lambda *a: Tag(how[0], *a))(*objs, *([ATTRS[len(self.tags) % len(ATTRS)]] if how[2] else []))
        i = len(self.tags)
        self.tags.append(t)
        self.kids.append(els)
        hook, cur = sys.displayhook, self.cur
        raised = None
        nested = None
        sig = None
        entered = False
        want_exc = None
        try:
            if how[1] == 0:
                with t:
                    entered = True
                    self.enter(i, hook)
                    try:
                        sig = self.block(body)
                    except BaseException as e:
                        raised = e
                        raise
                    finally:
                        want_exc = self.leave(i, cur)
                    if sig:
                        return sig
            elif how[1] == 1:
                with contextlib.ExitStack() as stack:
                    stack.enter_context(t)
                    entered = True
                    self.enter(i, hook)
                    try:
                        sig = self.block(body)
                    except BaseException as e:
                        raised = e
                        raise
                    finally:
                        want_exc = self.leave(i, cur)
                    if sig:
                        return sig
            else:
                # in a function that returns or a loop that breaks out of the block
                def f():
                    nonlocal entered, raised, want_exc, sig
                    for _ in range(3):
                        with t:
                            entered = True
                            self.enter(i, hook)
                            try:
                                sig = self.block(body)
                            except BaseException as e:
                                raised = e
                                raise
                            finally:
                                want_exc = self.leave(i, cur)
                            if how[2]:
                                return
                            break

                f()
            if want_exc is not None:
                fail(f"the enclosing hook's {want_exc.__name__} did not come out of the block")
            if raised is not None:
                fail(f"the block swallowed {type(raised).__name__}")
            return sig
        except BaseException as e:
            if type(e).__name__ in ("Violation", "_Abort"):
                raise
            if not entered:
                fail(f"entering a fresh tag raised {type(e).__name__}: {e}")
            if want_exc is not None:
                expect(isinstance(e, want_exc), "exception of the enclosing hook", got=type(e))
            else:
                expect(e is raised, "the exception that leaves a block is not the one raised in it", got=repr(e), raised=repr(raised))
            raise
        finally:
            if entered:
                if sys.displayhook is not hook:
                    if sys.exc_info()[0] is None or type(sys.exc_info()[1]).__name__ != "Violation":
                        fail("sys.displayhook after the block is not the hook that was installed at entry", hook=sys.displayhook, exception=repr(raised))
                self.cur = cur
                self.check_tags()

    def enter(self, i, hook):
        self.active.append(i)
        self.n["depth"] = max(self.n["depth"], len(self.active))
        self.cur = ("tag", i)
        expect(sys.displayhook is not hook, "entering a block installs no hook")

    def leave(self, i, cur):
        """The block is about to end: the model hands the tag to the enclosing hook."""
        self.check_tags()
        self.active.pop()
        return self.deliver(cur, self.tags[i], [self.tags[i]], None)


def same(got, want):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if isinstance(w, (HTML, AnyEqStr)) or not isinstance(w, str):
            if isinstance(w, HTML):
                if not (isinstance(g, HTML) and g.as_string() == w.as_string()):
                    return False
            elif g is not w:
                return False
        elif not (isinstance(g, str) and str.__eq__(g, w)):
            return False
    return True


def test_program(case, ctx):
    run = Run(case)
    base = run.recs[0][1]
    sys.displayhook = base
    try:
        try:
            run.block([["tryall", case["prog"]]] if case["guard"] else case["prog"])
        except BaseException as e:
            if type(e).__name__ in ("Violation", "_Abort"):
                raise
        if run.cur == ("rec", 0):
            expect(sys.displayhook is base, "the display hook after all blocks", hook=sys.displayhook)
        run.check_tags()
        expect(not run.active, "harness")
        # being a context manager leaves no mark on the content
        for t in run.tags:
            if not cyclic(t, set()):
                u = Tag(t.name, dict(t.attrs), *t.children, _add_ws=t.add_ws)
                if plain(t):
                    expect(t == u and u == t, "a tag filled by a block is not equal to one built directly", got=vars(t), want=vars(u))
                    expect_eq(t.render()["html"], u.render()["html"], "rendering of a tag filled by a block")
        # a tag that was used stays harmless: entering again leaves the hooks alone
        for t in run.tags[:3]:
            before = sys.displayhook
            sys.displayhook = h = lambda v: None
            try:
                with t:
                    pass
            except RuntimeError:
                pass
            expect(sys.displayhook is h, "entering a finished tag lost the display hook")
            sys.displayhook = before
    finally:
        sys.displayhook = sys.__displayhook__
    n = run.n
    ctx.nontrivial(n["with"] >= 2 and (n["depth"] >= 2 or n["exc"] or n["invalid"] or n["reenter"]))
    ctx.label("depth %d" % min(n["depth"], 6))
    for k in ("exc", "invalid", "reenter"):
        if n[k]:
            ctx.label({"exc": "exception in a block", "invalid": "invalid value", "reenter": "re-entry of an active tag"}[k])


def cyclic(x, path):
    if id(x) in path:
        return True
    path = path | {id(x)}
    return any(isinstance(c, Tag) and cyclic(c, path) for c in x.children)


def plain(t):
    return all(isinstance(c, (str, HTML)) and type(c) is not AnyEqStr or (isinstance(c, Tag) and plain(c)) for c in t.children)


VALUE = gen.weighted((6, c14.node(2)), (2, c14.node(2, 3)), (2, st.sampled_from([["none"], ["ell"]])), (1, c14.BAD), (1, st.one_of(gen.SHORT, gen.TEXT).map(lambda s: ["r", s])), (1, st.one_of(gen.SHORT, gen.TEXT).map(lambda s: ["h", s])), (2, st.sampled_from(["anyeq", "array", "eqraises", "badrepr", "meta", "anyint", "anystr", "counting"]).map(lambda s: ["odd", s])), (1, st.integers(0, 9).map(lambda i: ["tagref", i])))
OKVALUE = gen.weighted((6, c14.node(2)), (2, st.sampled_from([["none"], ["ell"]])), (2, st.one_of(gen.SHORT, gen.TEXT).map(lambda s: ["r", s])), (1, st.one_of(gen.SHORT, gen.TEXT).map(lambda s: ["h", s])))
EXC = st.sampled_from(sorted(EXCS)).map(lambda e: ["raise", e])


@st.composite
def stmts(draw, depth, calm):
    out = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.integers(0, 29))
        if k < 9:
            out.append(["show", draw(OKVALUE if calm else VALUE)])
        elif k < 20 and depth > 0:
            out.append(["with", [draw(st.integers(0, 9)), draw(st.integers(0, 2)), draw(st.booleans())], draw(st.lists(c14.LEAF, max_size=2)), draw(stmts(depth - 1, calm))])
        elif k < 22:
            out.append([draw(st.sampled_from(["try", "tryall"])), draw(stmts(max(0, depth - 1), False))])
        elif k < 23:
            out.append(["reenter", draw(st.integers(0, 5)), draw(st.integers(0, 2)), False if calm else draw(st.booleans())])
        elif k < 24:
            out.append(["append"])
        elif k < 25:
            out.append(["sethook", draw(st.integers(0, 2))])
        elif k < 26:
            out.append(["switch", draw(st.integers(0, 2)), draw(stmts(max(0, depth - 1), calm))])
        elif k < 27:
            out.append(["return"])
        elif not calm:
            out.append(draw(EXC))
    return out


@st.composite
def deep(draw):
    n = draw(gen.sizes(3, 40, 8))
    body = draw(stmts(1, False))
    for i in range(n):
        w = ["with", [draw(st.integers(0, 9)), draw(st.integers(0, 2)), draw(st.booleans())], [], body]
        body = [["show", ["t", f"b{i}"]], w, ["show", ["t", f"a{i}"]]] if i % 3 else [w]
        if draw(st.integers(0, 6)) == 0:
            body = [["try", body]]
    return body


@st.composite
def wide(draw):
    n = draw(gen.sizes(4, 80, 8))
    unit = draw(stmts(2, True))
    return [["with", [0, 0, False], [], [x for _ in range(n) for x in (unit or [["show", ["t", "z"]]])][:300]]]


def strat():
    prog = gen.weighted((4, st.tuples(stmts(4, True)).map(lambda t: t[0])), (6, st.tuples(stmts(4, False)).map(lambda t: t[0])), (1, deep()), (1, wide()))
    top = prog.map(lambda p: p if any(s[0] == "with" for s in p) else [["with", [0, 0, False], [], p]])
    hook = st.fixed_dictionaries({"kind": st.integers(0, 2), "raise_at": gen.weighted((3, st.just([])), (1, st.lists(st.integers(1, 4), max_size=2)))})
    return st.fixed_dictionaries({"hooks": st.lists(hook, min_size=1, max_size=3), "prog": top, "guard": st.booleans()})


def cases_small(tier):
    """Every way out of a block at every depth up to 4, with something before and after."""
    exits = [[]] + [[["raise", e]] for e in sorted(EXCS)] + [[["return"]], [["reenter", 0, 0, False]], [["reenter", 0, 1, True]], [["reenter", 1, 2, False]], [["reenter", 2, 0, True]], [["sethook", 1]], [["show", ["odd", "anyeq"]]], [["show", ["odd", "array"]]], [["show", ["odd", "badrepr"]]]] + [[["show", ["!", k]]] for k in sorted(c14.INVALID)]
    vals = [["show", v] for v in (["t", "a"], ["none"], ["ell"], ["r", "<r>"], ["h", "<h>"], ["n", 3], ["L", [["t", "l"], ["N"], ["n", 1]]], ["g", "i", True, [], []], ["T", [["r", "q"]]], ["x", "list", []], ["X", "list", []], ["d", {"name": "a", "version": "1"}], ["m"], ["U", []], ["odd", "counting"], ["odd", "meta"], ["odd", "anyint"], ["odd", "anystr"], ["t", ""], ["n", 0], ["n", False])]
    for j, v in enumerate(vals):
        for h in range(3):
            yield {"hooks": [{"kind": h, "raise_at": []}, {"kind": 1, "raise_at": []}], "guard": False, "prog": [v, ["with", [j, h, False], [], [v, ["show", ["t", "m"]], v, ["with", [0, h, True], [["t", "pre"]], [v]], v]], v]}
    for n in range(1, 5):
        for at in range(n + 1):  # the level where it is caught
            for d in range(n):  # the level where it happens
                for q, x in enumerate(exits):
                    body = []
                    for lvl in reversed(range(n)):
                        inner = [["show", ["t", f"pre{lvl}"]]] + (x if lvl == d else []) + body + [["show", ["t", f"post{lvl}"]]]
                        body = [["with", [lvl + q, (q + lvl) % 3, False], [], inner]]
                        if lvl == at:
                            body = [["tryall", body]]
                    yield {"hooks": [{"kind": q % 3, "raise_at": [2] if q % 4 == 3 else []}, {"kind": 1, "raise_at": [1] if q % 5 == 4 else []}], "guard": bool(q % 2), "prog": body + [["show", ["t", "end"]], ["with", [0, 0, False], [], [["show", ["t", "again"]]]]]}


def cases_names(tier):
    """Every element as a block, inside and around others, left in every way."""
    vals = [["t", "a"], ["n", 3], ["r", "<r>"], ["g", "i", True, [], []], ["none"], ["L", [["t", "l"], ["N"]]], ["d", {"name": "a", "version": "1"}]]
    for i, n in enumerate(names.NAMES):
        for k in range(4):
            m = names.NAMES[(i * 7 + k * 31) % len(names.NAMES)]
            v = ["show", vals[(i + k) % len(vals)]]
            exit_ = [[], [["raise", sorted(EXCS)[i % len(EXCS)]]], [["return"]], [["reenter", k, i % 3, False]]][k]
            w = ["with", [n, (i + k) % 3, False], [["t", "pre"]] if k % 2 else [], [v, ["show", ["t", "m"]], ["with", [m, i % 3, False], [], [v, ["show", ["g", n, True, [], []]]] + (exit_ if i % 2 else [])], v] + exit_]
            yield {"hooks": [{"kind": k % 3, "raise_at": []}, {"kind": 1, "raise_at": []}], "guard": k % 2 == 0, "prog": [v, ["with", [m, k % 3, False], [], [["show", ["t", "o"]], ["tryall", [w]], v]], v]}


CHECKS = [
    Check("every element", test_program, cases=cases_names),
    Check("every way out at every depth", test_program, cases=cases_small),
    Check("programs", test_program, strategy=strat, quick=700, thorough=40000),
]
