"""Element and attribute names, systematically: what is right for <div> must be right for every element."""
from . import gen

ATTRS_HTML = """abbr accept accept_charset accesskey action allow allowfullscreen alt as_ async_ autocapitalize autocomplete autofocus autoplay
blocking capture charset checked cite class_ color cols colspan content contenteditable controls coords crossorigin data datetime decoding default
defer dir dirname disabled download draggable enctype enterkeyhint for_ form formaction formenctype formmethod formnovalidate formtarget frameborder
headers height hidden high href hreflang http_equiv id imagesizes imagesrcset inert inputmode integrity is_ ismap itemid itemprop itemref itemscope
itemtype kind label lang list loading loop low max maxlength media method min minlength multiple muted name nomodule nonce novalidate open optimum
part pattern ping placeholder playsinline popover popovertarget poster preload readonly referrerpolicy rel required reversed role rows rowspan
sandbox scope scrolling selected shape size sizes slot span spellcheck src srcdoc srclang srcset start step style summary tabindex target title
translate type usemap value width wrap align bgcolor border cellpadding cellspacing onclick onchange onload on_click aria_label aria_hidden
data_toggle data_bs_target datetime_ text link face noshade nowrap code object classid codebase archive valign frame rules""".split()
ATTRS_SVG = """viewBox viewbox xmlns xlink_href xlink:href x y x1 x2 y1 y2 cx cy r rx ry fx fy dx dy d points transform fill fill_opacity fill_rule
stroke stroke_width stroke_linecap stroke_dasharray opacity offset stop_color clip_path clipPathUnits mask filter gradientTransform gradientUnits
patternUnits preserveAspectRatio markerWidth markerHeight orient refX refY font_size font_family text_anchor dominant_baseline textLength
attributeName attributeType begin dur end from_ to by values keyTimes calcMode repeatCount in_ in2 result stdDeviation baseFrequency numOctaves
seed scale mode operator k1 k2 rotate pathLength vector_effect version baseProfile systemLanguage requiredFeatures externalResourcesRequired""".split()
ATTRS = list(dict.fromkeys(ATTRS_HTML + ATTRS_SVG))
NAMES = sorted({e for m in ("tags", "svg") for e, _ in gen.CAT[m].values()} | set(gen.VOID) | {"my-elem", "X", "h7", "ns:el", "x"})


def cases(tier):
    """One case per element; the test goes over the rest."""
    for i, n in enumerate(NAMES):
        yield {"name": n, "i": i}


def attr(k):
    """An attribute list of one or two, different ones for different k."""
    a = [[ATTRS[k % len(ATTRS)], ["s", "v"]]]
    return a if k % 3 else a + [[ATTRS[(k * 7 + 3) % len(ATTRS)], ["v", True]]] if ATTRS[(k * 7 + 3) % len(ATTRS)] != a[0][0] else a


def shapes(name, i):
    """Trees with the element alone, around texts, tags and itself."""
    for ws in (True, False):
        t, b, s = ["t", "t"], ["g", "p", True, [], [["t", "e"]]], ["g", "em", False, [], [["t", "i"]]]
        for k, kids in enumerate(([], [t], [["t", " x\\n"]], [t, s], [b], [b, t, b], [s, t], [t, t], [["h", "<k>"]], [["h", "<k>"], t], [["r", "<r>"]], [["g", name, ws, [], [t]], ["g", name, not ws, [], []]])):
            el = ["g", name, ws, attr(i + k * 11) if k % 2 else [], kids]
            yield [el]
            yield [["g", "div", True, [], [t, el, t]]] if k % 2 else [["g", "span", False, [], [el, s, el]]]


def pairs(name, i):
    """Trees with the element as the parent and as the sibling of every other one."""
    for j, m in enumerate(NAMES):
        k = i + j
        ws = [(True, True), (True, False), (False, False), (False, True)][k % 4]
        c = [["g", m, ws[1], attr(k * 5) if k % 5 == 0 else [], [["t", "b"]] if k % 2 else []], ["t", "c"], ["g", m, ws[1], [], [["g", "i", False, [], []]]]]
        if k % 3 == 0:
            c = c[:1]
        elif k % 3 == 1:
            c = [["t", "a"]] + c
        yield [["g", name, ws[0], attr(k) if k % 7 == 0 else [], c]]
        yield [["g", name, ws[0], [], [["t", "q"]]], *c]
