"""C02 Plain-text children are inert data."""
import itertools
import re

from hypothesis import strategies as st

from htmltools import HTML, Tag, TagList, html_escape
from vfw import gen, names, place, sizes
from vfw.build import Str
from vfw.core import Check, fail
from vfw.oracle import MARK, TEXT_SPECIAL, between, check_escaped, escaped_verifier


StrSub = Str


def test(case, ctx):
    p, kind, v = case["p"], case["kind"], case["v"]
    if kind == "n":
        leaf, text = v, str(v)
    elif kind == "S":
        leaf, text = StrSub(v), v
    else:
        leaf, text = v, v
    if case["pre"]:
        # the same text seen before in other roles
        str(Tag("i", HTML(text), title=text))
        str(Tag("script", text))
        html_escape(text, attr=True)
    ref = place.outputs(p, MARK)
    got = place.outputs(p, leaf)
    ver = escaped_verifier(text)
    for (lab, r), (_, g) in zip(ref, got):
        between(g, r, ver, f"{lab}, way {p['way']}", text=text)
    check_escaped(html_escape(text), text, TEXT_SPECIAL, "html_escape()")
    ctx.nontrivial(any(c in text for c in "&<>"))
    ctx.label("way " + p["way"], "top " + p["top"])


def strategy():
    val = gen.weighted((6, st.tuples(st.just("s"), gen.TEXT)), (6, st.tuples(st.just("s"), gen.HOT)), (1, st.tuples(st.just("S"), gen.TEXT)), (1, st.tuples(st.just("n"), gen.NUMBER)))
    return st.tuples(val, place.placement(), st.booleans()).map(lambda t: {"p": t[1], "kind": t[0][0], "v": t[0][1], "pre": t[2]})


# --------------------------------------------------------------- every code point
def renders(s):
    """(description, output, prefix, suffix) of s in the four code paths, tight layouts."""
    yield "only child", Tag("div", s).get_html_string(), "<div>", "</div>"
    yield "first of inline", Tag("b", s, Tag("i", _add_ws=False), _add_ws=False).get_html_string(), "<b>", "<i></i></b>"
    yield "last of inline", Tag("b", "k", s, _add_ws=False).get_html_string(), "<b>k", "</b>"
    yield "first of block", Tag("div", s, "k").get_html_string(1), "  <div>\n    ", "k\n  </div>"
    yield "after block", TagList(Tag("p"), s).get_html_string(), "<p></p>\n", ""
    yield "list alone", TagList(s).get_html_string(), "", ""
    yield "void parent", Tag("br", s).get_html_string(), "<br>", "</br>"


def check_all(s):
    esc = html_escape(s)
    check_escaped(esc, s, TEXT_SPECIAL, "html_escape()")
    for d, out, pre, suf in renders(s):
        if not (out.startswith(pre) and out.endswith(suf)):
            fail(f"unexpected surroundings ({d})", output=out, text=s)
        mid = out[len(pre): len(out) - len(suf)]
        if mid != esc:
            check_escaped(mid, s, TEXT_SPECIAL, d)


def test_cps(case, ctx):
    cps = [c for c in range(case["from"], case["to"]) if not 0xD800 <= c < 0xE000]
    full = case["from"] < 0x3100 or case.get("full")
    n = 0
    for c in cps:
        ch = chr(c)
        if full:
            check_all(ch)
            check_all("a" + ch + "&" + ch)
            n += 2
        else:
            e = html_escape(ch)
            if e != ch:
                fail("html_escape changed a character", cp=hex(c), got=e)
            o = Tag("div", ch).get_html_string()
            if o != "<div>" + ch + "</div>":
                fail("character changed", cp=hex(c), got=o)
            n += 1
    if cps:
        check_all("".join(map(chr, cps)))
    ctx.count(n)
    ctx.nontrivial(bool(cps))


def cps(tier):
    for a in range(0, 0x110000, 256):
        yield {"from": a, "to": a + 256, "full": tier == "thorough"}


ALPHA = "&<>\"';#al\n /!-"


def test_short(case, ctx):
    s0 = case["prefix"]
    n = 0
    for k in range(case["more"] + 1):
        for t in itertools.product(ALPHA, repeat=k):
            check_all(s0 + "".join(t))
            n += 1
    ctx.count(n)
    ctx.nontrivial()


def short(tier):
    yield {"prefix": "", "more": 1}
    for a in itertools.product(ALPHA, repeat=2):
        yield {"prefix": "".join(a), "more": 2 if tier == "quick" else 3}


def ents(tier):
    for e in gen.HOSTILE + gen.DS:
        for t in ("{}", "{}{}", "x{}", "{}x", " {} ", "<{}>", "&{};", "{}\n{}"):
            yield {"s": t.replace("{}", e)}
    for ch in "<>&a é":
        for n in list(range(0, 70)) + [100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 10000, 65536, 70000]:
            yield {"s": ch * n}
            yield {"s": "a" * n + ch}
            yield {"s": "a" * n + ch + "b" + ch}


def test_ents(case, ctx):
    check_all(case["s"])
    ctx.nontrivial(any(c in case["s"] for c in "&<>"))


def test_size(case, ctx):
    test({"p": place.sized(case), "kind": "s", "v": "<a&b>\r\n'\"&lt;", "pre": False}, ctx)


def test_names(case, ctx):
    """Text in, around and below every element, written in the usual ways."""
    nm, i = case["name"], case["i"]
    if nm in gen.RAW:
        # raw only inside: what stands beside is ordinary text
        for t in ("a<b>&", "</script>"):
            o = Tag("div", t, Tag(nm, "x<y", _add_ws=False), t).get_html_string()
            e = html_escape(t)
            if o != f"<div>\n  {e}<{nm}>x<y</{nm}>{e}\n</div>":
                fail("text beside a raw-text element", output=o)
        return
    for j, m in enumerate(names.NAMES):
        t = ("<a&b>", "&lt;x", "</" + nm + "><" + m + ">", "\"'\r\n>", "a", "<!-- & -->")[(i + j) % 6]
        e = html_escape(t)
        check_escaped(e, t, TEXT_SPECIAL, "html_escape()")
        v = nm in gen.VOID
        for what, tree, want in (
            ("only child", lambda: Tag(nm, t), f"<{nm}>{e}</{nm}>"),
            ("with an attribute", lambda: Tag(nm, {names.ATTRS[(i + j * 3) % len(names.ATTRS)]: True}, t), None),
            ("inside another", lambda: Tag(m, Tag(nm, t, _add_ws=False), _add_ws=False), None if m in gen.RAW else f"<{m}><{nm}>{e}</{nm}></{m}>"),
            ("beside another", lambda: Tag("b", t, Tag(m, _add_ws=False), t, Tag(nm, t, _add_ws=False), t, _add_ws=False), f"<b>{e}<{m}" + ("/>" if m in gen.VOID else f"></{m}>") + f"{e}<{nm}>{e}</{nm}>{e}</b>"),
            ("two texts", lambda: Tag(nm, t, t, _add_ws=False), f"<{nm}>{e}{e}</{nm}>"),
            ("among", lambda: Tag(nm, "k", Tag(m, _add_ws=False), t, _add_ws=False), f"<{nm}>k<{m}" + ("/>" if m in gen.VOID else f"></{m}>") + f"{e}</{nm}>"),
        ):
            o = tree().get_html_string()
            if want is None:
                if not re.search(">" + re.escape(e) + "</" + re.escape(nm) + ">", o):
                    fail(f"text {what}", output=o, text=t)
            elif o != want:
                fail(f"text {what}", output=o, want=want, text=t)
    ctx.nontrivial()


CHECKS = [
    Check("every element", test_names, cases=names.cases),
    Check("sizes", test_size, cases=lambda tier: sizes.cases(tier, attrs=False)),
    Check("entities", test_ents, cases=ents),
    Check("short strings", test_short, cases=short),
    Check("code points", test_cps, cases=cps),
    Check("placements", test, strategy=strategy, quick=1500, thorough=40000),
]
