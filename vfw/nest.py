"""Use of the library from inside its own callbacks (tagify(), _repr_html_()), and failed uses.

User objects commonly build and render other tags while a tree that contains them is being
rendered; and operations that raise are part of an ordinary history. Neither may leave a trace in
what follows (state kept in module globals, scratch buffers or class attributes would)."""
from __future__ import annotations

import sys

ON = False
LEFT = 0
AT = 0
STRICT = False


class _Boom(Exception):
    pass


class _Bad:
    """Tagifiable and self-rendering; fails when used."""

    def tagify(self):
        raise _Boom

    def _repr_html_(self):
        raise _Boom


class _BadRepr:
    def _repr_html_(self):
        raise _Boom


class _Never:
    def tagify(self):
        return self


class _Box:
    def __init__(self, *x):
        self.x = x

    def tagify(self):
        from htmltools import TagList

        return TagList(*self.x).tagify()


def _nodes():
    from htmltools import HTML, HTMLDependency, MetadataNode, Tag, TagList, head_content

    d = HTMLDependency("nested", "3.1", source={"href": "u"}, script={"src": "s.js"}, head=HTML("<x>"))
    e = HTMLDependency("nested", "3.10", meta={"name": "n", "content": "c"}, stylesheet=[{"href": "c.css"}])
    return Tag("section", "n1 & n2", Tag("i", 1, Tag("div", "deep", _add_ws=True), HTML("<u>"), _add_ws=False), d, MetadataNode(),
               Tag("br"), Tag("pre", "a\nb"), Tag("script", "1<2"), TagList(Tag("p"), e, None, 3), head_content("q"),
               {"x_y": "1 & '2'"}, class_="z", style="w:1;")


def succeed(at=None):
    from htmltools import HTML, HTMLDocument, HTMLTextDocument, Tag, TagList
    from htmltools._jsx import jsx_tag_create

    def block():
        h = sys.displayhook
        got = []
        sys.displayhook = got.append
        try:
            with Tag("nav", 0):
                sys.displayhook("v")
                with Tag("b"):
                    sys.displayhook("w")
        finally:
            sys.displayhook = h

    t = _nodes()
    fs = [
        lambda: str(TagList("k < ", HTML("&"), t, "z")),
        lambda: t.add_class("c1", prepend=True).remove_class("z").add_style("a:b;").has_class("c1"),
        lambda: HTMLDocument(t, lang="nn").render(lib_prefix="nested/lib", include_version=False),
        lambda: TagList(t, _Box(Tag("em", "x"), _Box())).tagify().get_html_string(3, "\r"),
        lambda: (t.get_dependencies(dedup=False), t.tagify(), TagList(t).render()),
        lambda: str(jsx_tag_create("Nest.Ed")("x", Tag("i", "y", 1), _Box(Tag("b")), p=Tag("u", "z"), q={"a": [1, None]})),
        lambda: HTMLTextDocument("a @@ b" + str(t.get_dependencies()[0].serialize_to_script_json()), deps_replace_pattern="@@").render(),
        block,
    ]
    for f in fs if at is None else [fs[at % len(fs)]]:
        if STRICT:
            f()
        else:
            try:
                f()
            except Exception:  # not this property's business
                pass


def failures(at=None):
    """Operations that raise, at different depths."""
    from htmltools import HTMLDependency, HTMLDocument, HTMLTextDocument, Tag, TagList, head_content
    from htmltools._jsx import jsx_tag_create

    tl = TagList("a")
    t = Tag("div", "k", class_="a")

    def block():
        h = sys.displayhook
        sys.displayhook = lambda v: None
        try:
            with Tag("div"):
                with t:
                    sys.displayhook("w")
                    sys.displayhook(object())
        finally:
            sys.displayhook = h

    fs = [
        lambda: str(Tag("div", Tag("p", "x", Tag("b", _Never()), "y"), Tag("p"))),
        lambda: TagList("a", Tag("div", _Bad(), "z")).render(),
        lambda: HTMLDocument(Tag("div", Tag("i", _Bad(), _add_ws=False))).render(lib_prefix="zzz"),
        lambda: TagList(Tag("div", Tag("div", _Bad()))).get_html_string(4, "~"),
        lambda: str(Tag("script", "x", _BadRepr())),
        lambda: Tag("div", Tag("style", _Never(), "x"), {"class": "z"}).get_html_string(2, "#"),
        lambda: str(TagList("a", Tag("i", "k", _BadRepr(), _add_ws=False), Tag("p"))),
        lambda: HTMLDocument(Tag("div", Tag("p", "k", _BadRepr()), head_content("h"))).render(lib_prefix="zzz"),
        lambda: tl.extend(["q", [None, (object(),)]]),
        lambda: tl.append(object()),
        lambda: Tag("div", "x", {"a": "1"}, object(), b="2"),
        lambda: Tag("div", _add_ws="x"),
        lambda: t.add_style("a:b"),
        lambda: HTMLDependency("nested", "9", script={"x": "y"}),
        lambda: HTMLDependency("nested", "bad version"),
        lambda: HTMLTextDocument("x", deps=[HTMLDependency("nested", "1")]),
        lambda: str(jsx_tag_create("Nest")(Tag("i", _Bad()), p=_Bad())),
        lambda: jsx_tag_create("Nest", allowedProps=["a"])(b=1),
        block,
    ]
    for f in fs if at is None else [fs[(at + i) % len(fs)] for i in range(2)]:
        try:
            f()
        except Exception:
            pass


def work():
    """Called by the harness's own tagify() and _repr_html_() methods."""
    global LEFT, ON, AT
    if not ON or LEFT <= 0:
        return
    LEFT -= 1
    AT += 7
    ON = False
    try:
        if AT % 3:
            failures(AT // 3)
        else:
            succeed(AT // 3)
    except Exception:
        if STRICT:
            raise
    finally:
        ON = True
