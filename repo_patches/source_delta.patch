From 9890a9a9817dfbccc9a5cc6fc3f30c45213bc2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:05 +0000
Subject: [PATCH 01/22] fix: TagList += and + / extend() with HTML() normalise
 their operand like append()

---
 htmltools/_core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 405b6ce..6842974 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -275,7 +275,7 @@ class TagList(UserList[TagNode]):
         """
         Check if an object should not be expanded into a list of children.
         """
-        return isinstance(x, str)
+        return isinstance(x, (str, HTML))
 
     def __init__(self, *args: TagChild) -> None:
         super().__init__(_tagchilds_to_tagnodes(args))
@@ -320,6 +320,14 @@ class TagList(UserList[TagNode]):
 
         return TagList(*item, self)
 
+    def __iadd__(self, item: Iterable[TagChild]) -> TagList:
+        """
+        Add the item to the end of this TagList, in place.
+        """
+
+        self.extend(item)
+        return self
+
     def tagify(self) -> "TagList":
         """
         Convert any tagifiable children to Tag/TagList objects.
@@ -1925,7 +1933,7 @@ def consolidate_attrs(
 # Convert a list of TagChild objects to a list of TagNode objects. Does not alter input
 # object.
 def _tagchilds_to_tagnodes(x: Iterable[TagChild]) -> list[TagNode]:
-    if isinstance(x, str):
+    if isinstance(x, (str, HTML)):
         return [x]
 
     result = flatten(x)
-- 
2.43.0


From 282522d874d5d16da2016e988d45760f34d9358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:07 +0000
Subject: [PATCH 02/22] fix: is_tag_child() accepts int, as TagList() does

---
 htmltools/_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 6842974..0ff0130 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -207,6 +207,7 @@ def is_tag_child(x: object) -> TypeIs[TagChild]:
         (
             # TagNode, # Handled above
             TagList,
+            int,
             float,
             # None, # Handled above
             Sequence,
-- 
2.43.0


From 3d63024b85724f6499c5447de3e34f892078bf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:24 +0000
Subject: [PATCH 03/22] fix: escape plain attribute values as attributes when
 merged with HTML() ones

---
 htmltools/_core.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 0ff0130..f29c02e 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -564,7 +564,15 @@ class TagAttrDict(Dict[str, "str | HTML"]):
                 nm = self._normalize_attr_name(k)
 
                 if nm in attrz:
-                    val = attrz[nm] + " " + val
+                    prev = attrz[nm]
+                    # If only one of the values is HTML(), then the result is HTML() and
+                    # won't be escaped when it is rendered, so the plain value must be
+                    # escaped here, as an attribute value.
+                    if isinstance(prev, HTML) and not isinstance(val, HTML):
+                        val = HTML(html_escape(val, attr=True))
+                    elif isinstance(val, HTML) and not isinstance(prev, HTML):
+                        prev = HTML(html_escape(prev, attr=True))
+                    val = prev + " " + val
 
                 attrz[nm] = val
 
-- 
2.43.0


From 4c3e5090ac34ff816d1b90b37d05a0465b8e96a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:58 +0000
Subject: [PATCH 04/22] fix: HTMLDocument.render() no longer modifies a
 user-supplied <html> tag

---
 htmltools/_core.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index f29c02e..fc829e7 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1155,7 +1155,8 @@ class HTMLDocument:
     def _gen_html_tag_tree(
         self, lib_prefix: Optional[str], include_version: bool
     ) -> Tag:
-        content: TagList = self._content
+        # Tagify first: it makes a copy, so that the user's objects aren't modified below.
+        content: TagList = self._content.tagify()
         html: Tag
         body: Tag
 
@@ -1164,9 +1165,8 @@ class HTMLDocument:
             and isinstance(content[0], Tag)
             and cast(Tag, content[0]).name == "html"
         ):
-            html = cast(Tag, content[0])
+            html = copy(cast(Tag, content[0]))
             html.attrs.update(**self._html_attr_args)
-            html = html.tagify()
             html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
             return html
 
@@ -1179,8 +1179,6 @@ class HTMLDocument:
         else:
             body = Tag("body", content)
 
-        body = body.tagify()
-
         html = Tag("html", Tag("head"), body, _add_ws=True, **self._html_attr_args)
         html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
         return html
-- 
2.43.0


From 2ce06290ea3fc29d2fe475f24e5715cd84c2d86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 05/22] fix: copies of an HTMLDependency made by tagify() share
 no mutable fields with it

---
 htmltools/_core.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index fc829e7..1d65d7c 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1647,6 +1647,18 @@ class HTMLDependency(MetadataNode):
         else:
             self.head = TagList(head)
 
+    def __copy__(self) -> HTMLDependency:
+        cls = self.__class__
+        cp = cls.__new__(cls)
+        cp.__dict__.update(self.__dict__)
+        # Copies don't share any mutable fields with the original.
+        cp.source = deepcopy(self.source)
+        cp.script = deepcopy(self.script)
+        cp.stylesheet = deepcopy(self.stylesheet)
+        cp.meta = deepcopy(self.meta)
+        cp.head = None if self.head is None else _copy_taglist(self.head)
+        return cp
+
     def source_path_map(
         self, *, lib_prefix: Optional[str] = "lib", include_version: bool = True
     ) -> SourcePathMapping:
@@ -1959,6 +1971,20 @@ def _tagchilds_to_tagnodes(x: Iterable[TagChild]) -> list[TagNode]:
     return cast("list[TagNode]", result)
 
 
+# Copy a TagList and the tags and metadata nodes inside of it, without expanding any
+# Tagifiable objects.
+def _copy_taglist(x: TagList) -> TagList:
+    cp = copy(x)
+    for i, child in enumerate(cp):
+        if isinstance(child, Tag):
+            child = copy(child)
+            child.children = _copy_taglist(child.children)
+            cp[i] = child
+        elif isinstance(child, MetadataNode):
+            cp[i] = copy(child)
+    return cp
+
+
 def _tag_show(
     self: "TagList | Tag",
     renderer: Literal["auto", "ipython", "browser"] = "auto",
-- 
2.43.0


From 11632f1c8ca3d317faaf7685c2be72e2f4f48dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:02 +0000
Subject: [PATCH 06/22] fix: equality of tags ignores context manager state

---
 htmltools/_core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 1d65d7c..843f38e 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -2036,6 +2036,9 @@ def _equals_impl(x: Any, y: Any) -> bool:
     if not isinstance(y, type(x)):
         return False
     for key in x.__dict__.keys():
+        # State of the context manager, which isn't part of a tag's structure.
+        if key == "prev_displayhook":
+            continue
         if getattr(x, key, None) != getattr(y, key, None):
             return False
     return True
-- 
2.43.0


From 8a9b08240d861518b4b9a7523ab14cb3faf9ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 07/22] fix: reject an empty string given as script, stylesheet
 or meta of an HTMLDependency

---
 htmltools/_core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 843f38e..7824402 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1811,6 +1811,9 @@ class HTMLDependency(MetadataNode):
                 shutil.copytree(src_file, target_file)
 
     def _validate_dicts(self, ld: Iterable[object], req_attr: list[str]) -> None:
+        # Iterating over an empty string wouldn't reach the check of the items.
+        if isinstance(ld, (str, bytes)):
+            self._validate_dict(ld, req_attr)
         for d in ld:
             self._validate_dict(d, req_attr)
 
-- 
2.43.0


From bd4c1392d39ece84e19e44634d262b1fb7114b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:59 +0000
Subject: [PATCH 08/22] fix: dependencies inside a dependency's head content
 are hoisted like any other

---
 htmltools/_core.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 7824402..b4055fb 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -483,6 +483,9 @@ class TagList(UserList[TagNode]):
         for x in self:
             if isinstance(x, HTMLDependency):
                 deps.append(x)
+                # The head content of a dependency can have dependencies of its own.
+                if x.head is not None:
+                    deps.extend(x.head.get_dependencies(dedup=False))
             elif isinstance(x, Tag):
                 # When we recurse, don't deduplicate at every node. We only need to do
                 # that once, at the top level.
@@ -1113,10 +1116,14 @@ class HTMLDocument:
             Whether to include the version number in the dependency's folder name.
         """
 
-        html_ = self._gen_html_tag_tree(lib_prefix, include_version=include_version)
+        html_, deps = self._gen_html_tag_tree(
+            lib_prefix, include_version=include_version
+        )
         rendered = html_.render()
-        rendered["html"] = "<!DOCTYPE html>\n" + rendered["html"]
-        return rendered
+        return {
+            "dependencies": deps,
+            "html": "<!DOCTYPE html>\n" + rendered["html"],
+        }
 
     def save_html(
         self, file: str, libdir: Optional[str] = "lib", include_version: bool = True
@@ -1154,7 +1161,7 @@ class HTMLDocument:
     #   and <link rel="[lib_prefix]/style.css"> tags.
     def _gen_html_tag_tree(
         self, lib_prefix: Optional[str], include_version: bool
-    ) -> Tag:
+    ) -> tuple[Tag, list[HTMLDependency]]:
         # Tagify first: it makes a copy, so that the user's objects aren't modified below.
         content: TagList = self._content.tagify()
         html: Tag
@@ -1167,8 +1174,7 @@ class HTMLDocument:
         ):
             html = copy(cast(Tag, content[0]))
             html.attrs.update(**self._html_attr_args)
-            html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
-            return html
+            return HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
 
         if (
             len(content) == 1
@@ -1180,8 +1186,7 @@ class HTMLDocument:
             body = Tag("body", content)
 
         html = Tag("html", Tag("head"), body, _add_ws=True, **self._html_attr_args)
-        html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
-        return html
+        return HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
 
     # Given an <html> tag object, copies the top node, then extracts dependencies from
     # the tree, and inserts the content from those dependencies into the <head>, such as
@@ -1189,7 +1194,7 @@ class HTMLDocument:
     @staticmethod
     def _hoist_head_content(
         x: Tag, lib_prefix: Optional[str], include_version: bool
-    ) -> Tag:
+    ) -> tuple[Tag, list[HTMLDependency]]:
         if x.name != "html":
             raise ValueError(f"Expected <html> tag, got <{x.name}>.")
 
@@ -1232,7 +1237,7 @@ class HTMLDocument:
                 for d in deps
             ]
         )
-        return res
+        return res, deps
 
 
 class HTMLTextDocument:
-- 
2.43.0


From 0470244780409df4993a72ed87eccd0d9227378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 09/22] fix: HTMLTextDocument() no longer adds to the caller's
 list of dependencies

---
 htmltools/_core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index b4055fb..00439f4 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1285,9 +1285,8 @@ class HTMLTextDocument:
             )
 
         self._html = html
-        if deps is None:
-            deps = []
-        self._deps = deps
+        # Make a copy, because the dependencies found in the HTML are added to the list.
+        self._deps = [] if deps is None else list(deps)
 
         self._deps_replace_pattern = deps_replace_pattern
 
-- 
2.43.0


From d9cf721609fdb92b4125325f0770f153618ae0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:03 +0000
Subject: [PATCH 10/22] fix: serialised dependencies escape </script in any
 letter case

---
 htmltools/_core.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 00439f4..fd7ba4a 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1720,8 +1720,14 @@ class HTMLDependency(MetadataNode):
 
         return Tag(
             "script",
-            # "</script>" in a script tag must be escaped
-            json.dumps(res, indent=indent).replace("</script>", "<\\/script>"),
+            # "</script" in a script tag must be escaped, in any letter case. HTML parsers
+            # accept whitespace or a slash before the ">".
+            re.sub(
+                r"</(script)",
+                r"<\\/\1",
+                json.dumps(res, indent=indent),
+                flags=re.IGNORECASE,
+            ),
             type="application/json",
             data_html_dependency=True,
         )
-- 
2.43.0


From b7cdeb51c8ed4b969779b072ae4b2cd349b8c4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 11/22] fix: HTML() + TagList() gives a TagList, as str +
 TagList() does

---
 htmltools/_core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index fd7ba4a..06a5461 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1411,7 +1411,11 @@ class HTML(UserString):
     # * `str + HTML()` should return HTML() # Handled by HTML.__radd__()
     # * `HTML() + str` should return HTML()
     # * `HTML() + HTML()` should return HTML()
+    # * `HTML() + TagList()` should return TagList() # Handled by TagList.__radd__()
     def __add__(self, other: object) -> HTML:
+        if isinstance(other, TagList):
+            return NotImplemented
+
         if isinstance(other, HTML):
             # HTML strings should be concatenated without escaping
             # Convert each element to strings, then concatenate them, and return HTML
-- 
2.43.0


From 92a6a19ec3418831c474ac50d3706824659b2bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 12/22] fix: remove_class() and has_class() handle class
 attributes that are HTML()

---
 htmltools/_core.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 06a5461..3a75e17 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -13,6 +13,7 @@ import urllib.parse
 import webbrowser
 from collections import UserList, UserString
 from copy import copy, deepcopy
+from html import unescape as html_unescape
 from pathlib import Path
 from typing import (
     Any,
@@ -798,10 +799,13 @@ class Tag:
 
         # Remove the class value from the ordered set of class values
         # Note: .split() splits on any whitespace and removes empty strings
-        new_classes = [cls_val for cls_val in cls.split() if cls_val != class_]
+        new_classes = [cls_val for cls_val in _class_values(cls) if cls_val != class_]
         if len(new_classes) > 0:
-            # Store the new class value
-            self.attrs.update({"class": " ".join(new_classes)})
+            # Store the new class value. If it was HTML(), then so is what remains of it
+            new_class = " ".join(new_classes)
+            if isinstance(cls, HTML):
+                new_class = HTML(html_escape(new_class, attr=True))
+            self.attrs.update({"class": new_class})
         else:
             # If no class values remain, remove the class attribute
             self.attrs.pop("class")
@@ -823,7 +827,7 @@ class Tag:
         """
         cls = self.attrs.get("class")
         if cls:
-            return class_ in cls.split()
+            return class_ in _class_values(cls)
         else:
             return False
 
@@ -1966,6 +1970,11 @@ def consolidate_attrs(
 # =============================================================================
 
 
+# The values in a class attribute. An HTML() attribute holds them in escaped form.
+def _class_values(cls: str | HTML) -> list[str]:
+    return (html_unescape(str(cls)) if isinstance(cls, HTML) else cls).split()
+
+
 # Convert a list of TagChild objects to a list of TagNode objects. Does not alter input
 # object.
 def _tagchilds_to_tagnodes(x: Iterable[TagChild]) -> list[TagNode]:
-- 
2.43.0


From 0315a682d778e32e9bcdcc0dc8f5845f75c51b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:04 +0000
Subject: [PATCH 13/22] fix: displayed values are told from None and Ellipsis
 by identity, not ==

---
 htmltools/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 3a75e17..ebfe598 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1052,7 +1052,7 @@ def wrap_displayhook_handler(
             handler(value)
         elif isinstance(value, ReprHtml):
             handler(HTML(value._repr_html_()))  # pyright: ignore[reportPrivateUsage]
-        elif value not in (None, ...):
+        elif value is not None and value is not ...:
             handler(value)
 
     return handler_wrapper
-- 
2.43.0


From 01506bc5cca4a4f455b2be687a37d6846c67d7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:44 +0000
Subject: [PATCH 14/22] fix: converting a JSX component no longer alters it or
 what it contains

---
 htmltools/_jsx.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 02a1c9d..4edad48 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -110,6 +110,13 @@ class JSXTag:
     def append(self, *args: TagNode) -> None:
         self.children.append(*args)
 
+    def __copy__(self) -> JSXTag:
+        cls = self.__class__
+        cp = cls.__new__(cls)
+        # Like Tag, don't share .attrs and .children with the original.
+        cp.__dict__.update({k: copy.copy(v) for k, v in self.__dict__.items()})
+        return cp
+
     def tagify(self) -> Tag:
         metadata_nodes: list[MetadataNode] = []
 
@@ -121,20 +128,20 @@ class JSXTag:
         def tagify_tagifiable_and_get_metadata(x: Any) -> Any:
             if isinstance(x, Tagifiable) and not isinstance(x, (Tag, JSXTag)):
                 x = x.tagify()
-            else:
+            # Copy also what .tagify() returned: it may belong to the Tagifiable object.
+            if isinstance(x, (Tag, JSXTag, MetadataNode)):
                 x = copy.copy(x)
             if isinstance(x, MetadataNode):
                 metadata_nodes.append(x)
             return x
 
-        cp = copy.copy(self)
-        _walk_attrs_and_children(cp, tagify_tagifiable_and_get_metadata)
+        cp = _walk_attrs_and_children(self, tagify_tagifiable_and_get_metadata)
 
         # When _render_react_js()  is called on a JSXTag object, we'll recurse, but
         # instead of calling the standard Tag.get_html_string() method to format the
         # object, we'll recurse using _render_react_js(), which descends into the tree
         # and formats objects appropriately for inside of a JSX element.
-        component = _render_react_js(self, 2, "\n")
+        component = _render_react_js(cp, 2, "\n")
 
         # Ideally, we'd use document.currentScript.after() to insert the component
         # directly after the script tag, but when dynamically rendered via jQuery (i.e.,
-- 
2.43.0


From e57ebe2d2188d56a56ef899660f1766e97eb45ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:38 +0000
Subject: [PATCH 15/22] fix: JSX conversion covers tags and tagifiable objects
 in lists, dicts and TagLists

---
 htmltools/_jsx.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 4edad48..23bbc0c 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -126,7 +126,7 @@ class JSXTag:
         # metadata nodes. This could be done in two separate passes, but it's more
         # efficient to do it in one pass.
         def tagify_tagifiable_and_get_metadata(x: Any) -> Any:
-            if isinstance(x, Tagifiable) and not isinstance(x, (Tag, JSXTag)):
+            if isinstance(x, Tagifiable) and not isinstance(x, (Tag, JSXTag, TagList)):
                 x = x.tagify()
             # Copy also what .tagify() returned: it may belong to the Tagifiable object.
             if isinstance(x, (Tag, JSXTag, MetadataNode)):
@@ -194,16 +194,19 @@ def _walk_attrs_and_children(x: Any, fn: Callable[[Any], Any]) -> Any:
     x = fn(x)
 
     if isinstance(x, Tag):
-        for i, child in enumerate(x.children):
-            x.children[i] = _walk_attrs_and_children(child, fn)
+        x.children = _walk_attrs_and_children(x.children, fn)
     elif isinstance(x, JSXTag):
         for key, value in x.attrs.items():
             x.attrs[key] = _walk_attrs_and_children(value, fn)
-        for i, child in enumerate(x.children):
-            x.children[i] = _walk_attrs_and_children(child, fn)
-    elif isinstance(x, Tagifiable):
-        # Don't do anything here?
-        pass
+        x.children = _walk_attrs_and_children(x.children, fn)
+    elif isinstance(x, TagList):
+        # TagList() flattens the TagLists that Tagifiable objects may have returned.
+        x = TagList(*[_walk_attrs_and_children(child, fn) for child in x])
+    elif isinstance(x, (list, tuple)):
+        x = [_walk_attrs_and_children(y, fn) for y in cast(Iterable[Any], x)]
+    elif isinstance(x, dict):
+        x1 = cast(Dict[Any, Any], x)
+        x = {key: _walk_attrs_and_children(value, fn) for key, value in x1.items()}
 
     return x
 
@@ -264,6 +267,8 @@ def _serialize_attr(x: object) -> str:
         return "null"
     if isinstance(x, Tag) or isinstance(x, JSXTag):
         return _render_react_js(x, 0, "\n")
+    if isinstance(x, TagList):
+        x = [y for y in x if not isinstance(y, MetadataNode)]
     if isinstance(x, (list, tuple)):
         return (
             "[" + ", ".join([_serialize_attr(y) for y in cast(Iterable[Any], x)]) + "]"
-- 
2.43.0


From e007d73f70c9e1b9a00ef0d431ddc8ca8801a07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 16/22] fix: quotes in prop names, </script> in strings and
 non-finite numbers in JSX components

---
 htmltools/_jsx.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 23bbc0c..3b51eb4 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -8,6 +8,7 @@ components may become unsupported in a future version (see #26 and #28)
 from __future__ import annotations
 
 import copy
+import math
 import re
 from typing import Any, Callable, Dict, Iterable, Mapping, Optional, cast
 
@@ -220,7 +221,7 @@ def _render_react_js(x: TagNode, indent: int, eol: str) -> str:
     if isinstance(x, MetadataNode):
         return ""
     elif isinstance(x, str):
-        return indent_str + '"' + x.replace('"', '\\"') + '"'
+        return indent_str + _js_string(x)
 
     if isinstance(x, JSXTag):
         nm = x.name
@@ -246,7 +247,7 @@ def _render_react_js(x: TagNode, indent: int, eol: str) -> str:
             v = _serialize_style_attr(v)
         else:
             v = _serialize_attr(v)
-        res += f'"{k}": {v}'
+        res += f"{_js_string(k)}: {v}"
     res += "}"
 
     if len(x.children) == 0:
@@ -275,12 +276,25 @@ def _serialize_attr(x: object) -> str:
         )
     if isinstance(x, dict):
         x1: dict[str, Any] = x  # make pyright happy
-        return "{" + ", ".join([f'"{y}": ' + _serialize_attr(x1[y]) for y in x1]) + "}"
+        return (
+            "{"
+            + ", ".join([_js_string(y) + ": " + _serialize_attr(x1[y]) for y in x1])
+            + "}"
+        )
     if isinstance(x, bool):
         return str(x).lower()
+    if isinstance(x, float) and not math.isfinite(x):
+        return "NaN" if math.isnan(x) else "Infinity" if x > 0 else "-Infinity"
     if isinstance(x, (jsx, int, float)):
         return str(x)
-    return '"' + str(x).replace('"', '\\"') + '"'
+    return _js_string(x)
+
+
+def _js_string(x: object) -> str:
+    # The literal ends up inside of a <script>, so it can't contain "</script" nor
+    # "<!--" (in JS, "<\/" and "<\!" are the same as "</" and "<!").
+    res = str(x).replace('"', '\\"').replace("</", "<\\/").replace("<!--", "<\\!--")
+    return '"' + res + '"'
 
 
 def _serialize_style_attr(x: object) -> str:
-- 
2.43.0


From adc9af243b62085f58b278371fbcee655fd18377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 17/22] fix: JSX style given as jsx() or with a colon in a
 value

---
 htmltools/_jsx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 3b51eb4..9845ac1 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -300,11 +300,13 @@ def _js_string(x: object) -> str:
 def _serialize_style_attr(x: object) -> str:
     if x is None:
         return "{}"
+    if isinstance(x, jsx):
+        return _serialize_attr(x)
     # Parse CSS strings into a dict (because React requires it)
     if isinstance(x, str):
         x = cast(
             "list[tuple[str, str]]",
-            [tuple(y.split(":")) for y in x.split(";") if re.search(":", y)],
+            [tuple(y.split(":", 1)) for y in x.split(";") if re.search(":", y)],
         )
         x = dict(x)
     if isinstance(x, dict):
-- 
2.43.0


From b0341e0c2aceb69074388a7ea345fa2d200123d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:04 +0000
Subject: [PATCH 18/22] fix: an empty list of allowed JSX props allows none

---
 htmltools/_jsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 9845ac1..15fc3c5 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -95,7 +95,7 @@ class JSXTag:
         if pieces[-1][:1] != pieces[-1][:1].upper():
             raise NotImplementedError("JSX tags must be start with a capital letter.")
 
-        if allowedProps:
+        if allowedProps is not None:
             for k in kwargs.keys():
                 if k not in allowedProps:
                     raise NotImplementedError(f"{k} is not a valid prop for {_name}")
-- 
2.43.0


From 87cc85a48804bc84f21af5888eb2835d31f78995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 19/22] fix: a str subclass with _repr_html_() or tagify() as
 only child was emitted as plain text

---
 htmltools/_core.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index ebfe598..412606f 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -909,7 +909,15 @@ class Tag:
             return html_ + close
 
         # Inline a single/empty child text node
-        if len(children) == 1 and isinstance(children[0], (str, HTML)):
+        if (
+            len(children) == 1
+            and isinstance(children[0], (str, HTML))
+            # A str subclass may also be Tagifiable or ReprHtml; see TagList
+            and (
+                isinstance(children[0], HTML)
+                or not isinstance(children[0], (Tagifiable, ReprHtml))
+            )
+        ):
             if self.name in _NO_ESCAPE_TAG_NAMES:
                 return html_ + str(children[0]) + close
             else:
-- 
2.43.0


From e7b7ffdab2e7f88b3e5a441b320136b22e349b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:27 +0000
Subject: [PATCH 20/22] fix: a str subclass with its own __str__() (a str Enum)
 was written as str() of it where nothing had to be escaped

---
 htmltools/_core.py | 9 +++++----
 htmltools/_util.py | 7 +++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 412606f..7e8711d 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -47,6 +47,7 @@ from typing import Literal, Protocol, SupportsIndex, runtime_checkable
 from packaging.version import Version
 
 from ._util import (
+    as_text,
     ensure_http_server,
     flatten,
     hash_deterministic,
@@ -919,7 +920,7 @@ class Tag:
             )
         ):
             if self.name in _NO_ESCAPE_TAG_NAMES:
-                return html_ + str(children[0]) + close
+                return html_ + as_text(children[0]) + close
             else:
                 return html_ + _normalize_text(children[0]) + close
 
@@ -1406,7 +1407,7 @@ class HTML(UserString):
     """
 
     def __init__(self, html: object) -> None:
-        super().__init__(str(html))
+        super().__init__(as_text(html))
 
     def __str__(self) -> str:
         return self.as_string()
@@ -1437,14 +1438,14 @@ class HTML(UserString):
         # Non-HTML text added to HTML should be escaped before being added
         # Convert each element to strings, then concatenate them, and return HTML
         # Case: `HTML() + str`
-        return HTML(self.as_string() + html_escape(str(other)))
+        return HTML(self.as_string() + html_escape(as_text(other)))
 
     # Right side addition for when types are: `str + HTML()` or `unknown + HTML()`
     def __radd__(self, other: object) -> HTML:
         # Non-HTML text added to HTML should be escaped before being added
         # Convert each element to strings, then concatenate them, and return HTML
         # Case: `str + HTML()`
-        return HTML(html_escape(str(other)) + self.as_string())
+        return HTML(html_escape(as_text(other)) + self.as_string())
 
     def __repr__(self) -> str:
         return self.as_string()
diff --git a/htmltools/_util.py b/htmltools/_util.py
index 3138ea2..3d8a9de 100644
--- a/htmltools/_util.py
+++ b/htmltools/_util.py
@@ -123,6 +123,7 @@ HTML_ATTRS_ESCAPE_TABLE = {
 
 
 def html_escape(text: str, attr: bool = False) -> str:
+    text = str.__str__(text)  # Not what a subclass makes of it; see as_text()
     table = HTML_ATTRS_ESCAPE_TABLE if attr else HTML_ESCAPE_TABLE
     if not re.search("|".join(table), text):
         return text
@@ -131,6 +132,12 @@ def html_escape(text: str, attr: bool = False) -> str:
     return text
 
 
+# str(x), except that a str subclass with its own __str__() (like a str Enum) stands for
+# the characters it consists of.
+def as_text(x: object) -> str:
+    return str.__str__(x) if isinstance(x, str) else str(x)
+
+
 # Backwards compatibility with faicons 0.2.1
 _html_escape = html_escape
 
-- 
2.43.0


From 1891038ddfe4c658dd7ab4865f49caba8387e636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:30 +0000
Subject: [PATCH 21/22] fix: remove_class() and css() take the text of a str
 Enum member, as add_class() does

---
 htmltools/_core.py | 2 +-
 htmltools/_util.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 7e8711d..435f4bd 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -796,7 +796,7 @@ class Tag:
             return self
 
         # Coerce and clean
-        class_ = str(class_).strip()
+        class_ = as_text(class_).strip()
 
         # Remove the class value from the ordered set of class values
         # Note: .split() splits on any whitespace and removes empty strings
diff --git a/htmltools/_util.py b/htmltools/_util.py
index 3d8a9de..dadeb13 100644
--- a/htmltools/_util.py
+++ b/htmltools/_util.py
@@ -70,7 +70,7 @@ def css(
     for k, v in kwargs.items():
         if v is None:
             continue
-        v = " ".join(v) if isinstance(v, list) else str(v)
+        v = " ".join(v) if isinstance(v, list) else as_text(v)
         k = re.sub("_", "-", re.sub("([A-Z])", "-\\1", k).lower())
         res += k + ":" + v + ";" + collapse_
     return None if res == "" else res
-- 
2.43.0


From a6c811c3f4bc25318b1ed1bc07d2e05f12442bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 22/22] fix: str Enum members in JSX components are written as
 their text

---
 htmltools/_jsx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 15fc3c5..1e5a051 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -23,6 +23,7 @@ from ._core import (
     TagList,
     TagNode,
 )
+from ._util import as_text
 from ._versions import versions
 
 # CPS 6/8/2022: this module is currently too experimental to be recommended for use.
@@ -293,7 +294,7 @@ def _serialize_attr(x: object) -> str:
 def _js_string(x: object) -> str:
     # The literal ends up inside of a <script>, so it can't contain "</script" nor
     # "<!--" (in JS, "<\/" and "<\!" are the same as "</" and "<!").
-    res = str(x).replace('"', '\\"').replace("</", "<\\/").replace("<!--", "<\\!--")
+    res = as_text(x).replace('"', '\\"').replace("</", "<\\/").replace("<!--", "<\\!--")
     return '"' + res + '"'
 
 
-- 
2.43.0

