From 0007d17fb0c1efef314a386f56014a71d0811dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:51 +0000
Subject: [PATCH 01/33] fix: terminate the &quot; entity in attribute values

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index f2da5d4..1618abb 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -149,7 +149,7 @@ class HtmlEmitter:
         return escape(text)
 
     def attr_escape(self, text):
-        return self.html_escape(text).replace('"', '&quot')
+        return self.html_escape(text).replace('"', '&quot;')
 
     # *_emit methods for emitting nodes of the document:
 
-- 
2.43.0


From 4f70a318fc98245fc7ea85dc3fbdb53e6dc364b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 02/33] fix: escape the headlines in the table of contents

---
 creole/emitter/creol2html_emitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 1618abb..4666a67 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -65,7 +65,9 @@ class TableOfContent:
         """Convert a python nested list like the one representing the toc to an html equivalent."""
         indent = "\t" * level
         if isinstance(nested_headlines, str):
-            return f'{indent}<li><a href="#{nested_headlines}">{nested_headlines}</a></li>\n'
+            text = escape(nested_headlines)
+            anchor = escape(nested_headlines, {'"': '&quot;'})
+            return f'{indent}<li><a href="#{anchor}">{text}</a></li>\n'
         elif isinstance(nested_headlines, list):
             html = f'{indent}<ul>\n'
             for elt in nested_headlines:
-- 
2.43.0


From 1387563db21ea52893e8c9773dabdc4b6bce2ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:00 +0000
Subject: [PATCH 03/33] fix: escape quotes in the anchor name of headlines

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 4666a67..3d8d925 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -250,7 +250,7 @@ class HtmlEmitter:
         if self.toc is not None:
             self.toc.add_headline(node.level, node.content)
             # add link attribute for toc navigation
-            header = f'<a name="{self.html_escape(node.content)}">{header}</a>'
+            header = f'<a name="{self.attr_escape(node.content)}">{header}</a>'
 
         header += "\n"
         return header
-- 
2.43.0


From 06fc70a8ba7217a2000cf31a9731624209cdade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 04/33] fix: escape the image target when it is used as title

---
 creole/emitter/creol2html_emitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 3d8d925..74820a2 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -275,7 +275,7 @@ class HtmlEmitter:
                 if "|" in text:
                     title, size_str = text.split("|", 1)
                     if not title:
-                        title = target
+                        title = self.attr_escape(target)
                     w_str, h_str = size_str.split("x", 1)
                     width = int(w_str.strip())
                     height = int(h_str.strip())
-- 
2.43.0


From c99b39c638a04fc97ffb4596fa55783ed943e2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 05/33] fix: escape exception texts of macros in the html
 output

---
 creole/emitter/creol2html_emitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 74820a2..08be350 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -323,7 +323,7 @@ class HtmlEmitter:
         try:
             result = macro(**macro_kwargs)
         except TypeError as err:
-            msg = f"Macro '{macro_name}' error: {err}"
+            msg = f"Macro '{macro_name}' error: {self.html_escape(str(err))}"
             exc_info = sys.exc_info()
             if self.verbose > 1:
                 if self.verbose > 2:
@@ -350,14 +350,14 @@ class HtmlEmitter:
             return self.error(msg, exc_info)
         except Exception as err:
             return self.error(
-                f"Macro '{macro_name}' error: {err}",
+                f"Macro '{macro_name}' error: {self.html_escape(str(err))}",
                 exc_info=sys.exc_info()
             )
 
         if not isinstance(result, str):
             msg = f"Macro '{macro_name}' doesn't return a unicode string!"
             if self.verbose > 1:
-                msg += f" - returns: {result!r}, type {type(result)!r}"
+                msg += f" - returns: {self.html_escape(f'{result!r}, type {type(result)!r}')}"
             return self.error(msg)
 
         if node.kind == "macro_block":
-- 
2.43.0


From 72a18c0d5d564d6a31b5a06035bb43584c4c6c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:40 +0000
Subject: [PATCH 06/33] fix: reject a <<toc>> depth which is not a number in
 the macro call

---
 creole/emitter/creol2html_emitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 08be350..8bf4460 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -27,9 +27,9 @@ class TableOfContent:
         if self._created:
             return "&lt;&lt;toc&gt;&gt;"
 
-        self._created = True
         if depth is not None:
-            self.max_depth = depth
+            self.max_depth = int(depth)
+        self._created = True
 
         return '<<toc>>'
 
-- 
2.43.0


From 5669b8b437302c8b44cf8b49c9879ea2bc5986f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:46 +0000
Subject: [PATCH 07/33] fix: do not store the table of contents in the macros
 of the caller

---
 creole/emitter/creol2html_emitter.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index 8bf4460..e7afd5f 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -120,13 +120,12 @@ class HtmlEmitter:
                     self.toc = self.macros["toc"]
                 else:
                     self.toc = TableOfContent()
-                    self.macros["toc"] = self.toc
+                    self.macros = {**self.macros, "toc": self.toc}
             else:
                 try:
                     self.toc = getattr(self.macros, "toc")
                 except AttributeError:
                     self.toc = TableOfContent()
-                    self.macros.toc = self.toc
 
         if verbose is None:
             self.verbose = 1
@@ -312,7 +311,10 @@ class HtmlEmitter:
             try:
                 macro = getattr(self.macros, macro_name)
             except AttributeError:
-                exc_info = sys.exc_info()
+                if macro_name == "toc":
+                    macro = self.toc
+                else:
+                    exc_info = sys.exc_info()
 
         if macro is None:
             return self.error(
-- 
2.43.0


From 5c17fa6153e751ac30f2cb60dae14803bf17492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 08/33] fix: accept a own toc macro which is not a
 TableOfContent instance

---
 creole/emitter/creol2html_emitter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/creole/emitter/creol2html_emitter.py b/creole/emitter/creol2html_emitter.py
index e7afd5f..5911779 100644
--- a/creole/emitter/creol2html_emitter.py
+++ b/creole/emitter/creol2html_emitter.py
@@ -127,6 +127,10 @@ class HtmlEmitter:
                 except AttributeError:
                     self.toc = TableOfContent()
 
+            if not isinstance(self.toc, TableOfContent):
+                # a own "toc" macro, it's not involved in the headlines
+                self.toc = None
+
         if verbose is None:
             self.verbose = 1
         else:
-- 
2.43.0


From 87a7bd66eff0f0a85437cfb65c0b2cf0f82eb000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:18 +0000
Subject: [PATCH 09/33] fix: there is no html headline beyond h6

---
 creole/parser/creol2html_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/creol2html_parser.py b/creole/parser/creol2html_parser.py
index dd31a44..b3e864a 100644
--- a/creole/parser/creol2html_parser.py
+++ b/creole/parser/creol2html_parser.py
@@ -303,7 +303,7 @@ class CreoleParser:
     def _head_repl(self, groups):
         self._upto_block()
         node = DocNode('header', self.cur, groups['head_text'].strip())
-        node.level = len(groups['head_head'])
+        node.level = min(len(groups['head_head']), 6)
         self.text = None
     _head_head_repl = _head_repl
     _head_text_repl = _head_repl
-- 
2.43.0


From f36f8dda7ca75fe8e84f0a57011f2da8bc180eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 10/33] fix: pass the text of the code macro to the pygments
 lexer lookup

---
 creole/shared/example_macros.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/shared/example_macros.py b/creole/shared/example_macros.py
index 635e920..0002a2e 100644
--- a/creole/shared/example_macros.py
+++ b/creole/shared/example_macros.py
@@ -55,7 +55,7 @@ def code(ext, text):
     except IndexError:
         source_type = ''
 
-    lexer = get_pygments_lexer(source_type, code)
+    lexer = get_pygments_lexer(source_type, text)
     formatter = get_pygments_formatter()
 
     try:
-- 
2.43.0


From ae8b7ee21492492e618346b20780dffb647c8614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 11/33] fix: treat html attributes without a value as empty

---
 creole/parser/html_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 0b8e171..a491e78 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -181,6 +181,7 @@ class HtmlParser(HTMLParser):
 
     def handle_starttag(self, tag, attrs):
         self.debug_msg("starttag", f"{tag!r} atts: {attrs}")
+        attrs = [(name, value or "") for name, value in attrs]
 
         if tag in IGNORE_TAGS:
             return
@@ -219,6 +220,7 @@ class HtmlParser(HTMLParser):
 
     def handle_startendtag(self, tag, attrs):
         self.debug_msg("startendtag", f"{tag!r} atts: {attrs}")
+        attrs = [(name, value or "") for name, value in attrs]
         attr_dict = dict(attrs)
         if tag in (self._block_placeholder, self._inline_placeholder):
             id = int(attr_dict["id"])
-- 
2.43.0


From a73357e85057cdfe4d1af5bdfd59d24b28b70223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:10 +0000
Subject: [PATCH 12/33] fix: accept images without src and links without href

---
 creole/emitter/html2creole_emitter.py   |  9 +++++----
 creole/emitter/html2markdown_emitter.py | 11 +++++++++--
 creole/emitter/html2rest_emitter.py     |  9 +++++++--
 creole/emitter/html2textile_emitter.py  |  9 +++++++--
 4 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/creole/emitter/html2creole_emitter.py b/creole/emitter/html2creole_emitter.py
index d745fe3..99b2c8c 100644
--- a/creole/emitter/html2creole_emitter.py
+++ b/creole/emitter/html2creole_emitter.py
@@ -97,9 +97,8 @@ class CreoleEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
-        try:
-            url = node.attrs["href"]
-        except KeyError:
+        url = node.attrs.get("href")
+        if not url:
             # e.g.: <a name="anchor-one">foo</a>
             return link_text
         if link_text == url:
@@ -108,7 +107,9 @@ class CreoleEmitter(BaseEmitter):
             return f"[[{url}|{link_text}]]"
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src")
+        if not src:
+            return node.attrs.get("alt", "")
 
         if src.split(':')[0] == 'data':
             return ""
diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index b9bf8a0..650ecb3 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -150,7 +150,11 @@ class MarkdownEmitter(BaseEmitter):
     def a_emit(self, node: DocNode):
         link_text = self.emit_children(node)
 
-        url = quote_link(node.attrs['href'])
+        url = node.attrs.get('href')
+        if not url:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
+        url = quote_link(url)
 
         title = node.attrs.get('title')
         if title:
@@ -159,7 +163,10 @@ class MarkdownEmitter(BaseEmitter):
             return f'[{link_text}]({url})'
 
     def img_emit(self, node: DocNode):
-        src = quote_link(node.attrs['src'])
+        src = node.attrs.get('src')
+        if not src:
+            return node.attrs.get('alt', '')
+        src = quote_link(src)
 
         title = node.attrs.get('title')
         alt = node.attrs.get('alt', '')
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 64891ca..d4d93c2 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -203,7 +203,10 @@ class ReStructuredTextEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
-        url = node.attrs["href"]
+        url = node.attrs.get("href")
+        if not url:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
 
         old_url = self._get_old_substitution(self._used_substitution_links, link_text, url)
 
@@ -224,7 +227,9 @@ class ReStructuredTextEmitter(BaseEmitter):
             return f"`{link_text} <{url}>`_"
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src")
+        if not src:
+            return node.attrs.get("alt", "")
 
         if src.split(':')[0] == 'data':
             return ""
diff --git a/creole/emitter/html2textile_emitter.py b/creole/emitter/html2textile_emitter.py
index 89623d4..30c4941 100644
--- a/creole/emitter/html2textile_emitter.py
+++ b/creole/emitter/html2textile_emitter.py
@@ -96,11 +96,16 @@ class TextileEmitter(BaseEmitter):
 
     def a_emit(self, node):
         link_text = self.emit_children(node)
-        url = node.attrs["href"]
+        url = node.attrs.get("href")
+        if not url:
+            # e.g.: <a name="anchor-one">foo</a>
+            return link_text
         return f'"{link_text}":{url}'
 
     def img_emit(self, node):
-        src = node.attrs["src"]
+        src = node.attrs.get("src")
+        if not src:
+            return node.attrs.get("alt", "")
 
         if src.split(':')[0] == 'data':
             return ""
-- 
2.43.0


From c2a84ad78c51b377f21dfd352919156931c504de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:15 +0000
Subject: [PATCH 13/33] fix: do not fail on urls which urllib can not parse

---
 creole/emitter/html2markdown_emitter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 650ecb3..cf4e22f 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -24,8 +24,12 @@ def quote_link(uri):
     >>> quote_link('https://foo.tld/a image.png?bar=1#anchor')
     'https://foo.tld/a%20image.png?bar=1#anchor'
     """
-    scheme, netloc, url, params, query, fragment = urlparse(uri)
-    url = quote(url)
+    try:
+        scheme, netloc, url, params, query, fragment = urlparse(uri)
+        url = quote(url)
+    except ValueError:
+        # e.g.: invalid IPv6 URL
+        return uri
     return urlunparse(ParseResult(scheme, netloc, url, params, query, fragment))
 
 
-- 
2.43.0


From f2a0fcdf9bdf18373ab8f90cfbb7c5acc66518e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 14/33] fix: keep html entities which do not name a character

---
 creole/html_tools/deentity.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/creole/html_tools/deentity.py b/creole/html_tools/deentity.py
index 16a7dfa..fd9fdb1 100644
--- a/creole/html_tools/deentity.py
+++ b/creole/html_tools/deentity.py
@@ -44,13 +44,17 @@ class Deentity:
 
     def replace_number(self, text):
         """ unicode number entity """
-        unicode_no = int(text)
-        return chr(unicode_no)
+        try:
+            return chr(int(text))
+        except (ValueError, OverflowError):
+            return f"&#{text};"
 
     def replace_hex(self, text):
         """ hex entity """
-        unicode_no = int(text, 16)
-        return chr(unicode_no)
+        try:
+            return chr(int(text, 16))
+        except (ValueError, OverflowError):
+            return f"&#x{text};"
 
     def replace_named(self, text):
         """ named entity """
@@ -68,7 +72,11 @@ class Deentity:
             for name, text in groups.items():
                 if text is not None:
                     replace_method = getattr(self, f'replace_{name}')
-                    return replace_method(text)
+                    try:
+                        return replace_method(text)
+                    except KeyError:
+                        # unknown named entity
+                        return match.group(0)
 
             # Should never happen:
             raise RuntimeError("deentitfy re rules wrong!")
-- 
2.43.0


From 78bdf6595e0a3ceea0f09ed9bd3539b85701d6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 15/33] fix: accept hex character references with a upper case
 X

---
 creole/html_tools/deentity.py | 2 +-
 creole/shared/base_emitter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/html_tools/deentity.py b/creole/html_tools/deentity.py
index fd9fdb1..aa78940 100644
--- a/creole/html_tools/deentity.py
+++ b/creole/html_tools/deentity.py
@@ -14,7 +14,7 @@ from html import entities
 
 entities_rules = '|'.join([
     r"(&\#(?P<number>\d+);)",
-    r"(&\#x(?P<hex>[a-fA-F0-9]+);)",
+    r"(&\#[xX](?P<hex>[a-fA-F0-9]+);)",
     r"(&(?P<named>[a-zA-Z]+);)",
 ])
 # print(entities_rules)
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 35d7f88..b287600 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -69,7 +69,7 @@ class BaseEmitter:
         """
         entity = node.content
 
-        if entity.startswith("x"):
+        if entity.startswith(("x", "X")):
             # entity in hex
             hex_no = entity[1:]
             return self.deentity.replace_hex(hex_no)
-- 
2.43.0


From 3c6bc66451e794d29f9225aff15fdfa483e42eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 16/33] fix: accept table cells outside of a table and nested
 tables

---
 creole/emitter/html2markdown_emitter.py | 16 +++++++-------
 creole/emitter/html2rest_emitter.py     |  7 +++----
 creole/shared/base_emitter.py           | 28 ++++++++++++++++++-------
 3 files changed, 31 insertions(+), 20 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index cf4e22f..567841e 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -49,21 +49,19 @@ class MarkdownEmitter(BaseEmitter):
 
     # --------------------------------------------------------------------------
     def table_emit(self, node):
-        self._table = MarkupTable(head_prefix='', debug_msg=self.debug_msg)
-        self.emit_children(node)
-        content = self._table.get_markdown_table()
-        return f'\n{content}\n'
-
-    def tr_emit(self, node):
-        self._table.add_tr()
-        self.emit_children(node)
-        return ''
+        table = MarkupTable(head_prefix='', debug_msg=self.debug_msg)
+        content = self._emit_table(node, table)
+        return f'\n{content}{table.get_markdown_table()}\n'
 
     def th_emit(self, node):
+        if self._table is None:
+            return self._emit_content(node)
         self._table.add_th(self.emit_children(node))
         return ''
 
     def td_emit(self, node):
+        if self._table is None:
+            return self._emit_content(node)
         self._table.add_td(self.emit_children(node))
         return ''
     # --------------------------------------------------------------------------
diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index d4d93c2..14ede32 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -287,11 +287,10 @@ class ReStructuredTextEmitter(BaseEmitter):
         """
         http://docutils.sourceforge.net/docs/ref/rst/restructuredtext.html#tables
         """
-        self._table = MarkupTable(
+        table = MarkupTable(
             head_prefix="",
             auto_width=True,
             debug_msg=self.debug_msg
         )
-        self.emit_children(node)
-        content = self._table.get_rest_table()
-        return f"{content}\n\n"
+        content = self._emit_table(node, table)
+        return f"{content}{table.get_rest_table()}\n\n"
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index b287600..78412eb 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -33,6 +33,7 @@ class BaseEmitter:
 
         self.deentity = Deentity()  # for replacing html entities
         self._inner_list = ""
+        self._table = None
         self._mask_linebreak = False
 
     # --------------------------------------------------------------------------
@@ -124,20 +125,29 @@ class BaseEmitter:
 
     # --------------------------------------------------------------------------
 
+    def _emit_table(self, node, table):
+        """ fill the table with the cells and return the content around the cells. """
+        outer_table = self._table
+        self._table = table
+        content = self.emit_children(node).strip()
+        self._table = outer_table
+        if content:
+            content += "\n\n"
+        return content
+
     def table_emit(self, node):
-        self._table = MarkupTable(
+        table = MarkupTable(
             head_prefix=self.table_head_prefix,
             auto_width=self.table_auto_width,
             debug_msg=self.debug_msg
         )
-        self.emit_children(node)
-        content = self._table.get_table_markup()
-        return f"{content}\n"
+        content = self._emit_table(node, table)
+        return f"{content}{table.get_table_markup()}\n"
 
     def tr_emit(self, node):
-        self._table.add_tr()
-        self.emit_children(node)
-        return ""
+        if self._table is not None:
+            self._table.add_tr()
+        return self.emit_children(node)
 
     def _escape_linebreaks(self, text):
         text = text.strip()
@@ -149,12 +159,16 @@ class BaseEmitter:
         return content
 
     def th_emit(self, node):
+        if self._table is None:
+            return self._emit_content(node)
         content = self.emit_children(node)
         content = self._escape_linebreaks(content)
         self._table.add_th(content)
         return ""
 
     def td_emit(self, node):
+        if self._table is None:
+            return self._emit_content(node)
         content = self.emit_children(node)
         content = self._escape_linebreaks(content)
         self._table.add_td(content)
-- 
2.43.0


From a56fc92f913283473fd004d44086d3958ea2ddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:11 +0000
Subject: [PATCH 17/33] fix: keep the text after a stray html end tag

---
 creole/parser/html_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index a491e78..517d663 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -248,9 +248,9 @@ class HtmlParser(HTMLParser):
         if tag in ("ul", "ol"):
             self.__list_level -= 1
 
-        if tag in BLOCK_TAGS or self.cur is None:
+        if tag in BLOCK_TAGS:
             self._go_up()
-        else:
+        elif self.cur.parent is not None:
             self.cur = self.cur.parent
 
     # -------------------------------------------------------------------------
-- 
2.43.0


From e2b6a335f77332ec316fd7355eb29e87af007450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 18/33] fix: keep the list level in range on stray list tags

---
 creole/emitter/html2markdown_emitter.py | 8 ++------
 creole/parser/html_parser.py            | 4 +++-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 567841e..15db361 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -191,14 +191,10 @@ class MarkdownEmitter(BaseEmitter):
     def li_emit(self, node: DocNode):
         list_level = node.level
 
-        list_node = node.parent
-        list_kind = list_node.kind
-        if list_kind == 'ul':
-            prefix = '*'
-        elif list_kind == 'ol':
+        if node.parent.kind == 'ol':
             prefix = '1.'
         else:
-            raise NotImplementedError(f'List type: {list_kind}')
+            prefix = '*'
 
         indent = '  ' * (list_level - 1)
 
diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 517d663..ca058c9 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -231,6 +231,8 @@ class HtmlParser(HTMLParser):
                 content=self.blockdata[id],
                 #                attrs = attr_dict
             )
+        elif tag in ("li", "ul", "ol"):
+            DocNode(tag, self.cur, None, attrs, level=self.__list_level)
         else:
             DocNode(tag, self.cur, None, attrs)
 
@@ -245,7 +247,7 @@ class HtmlParser(HTMLParser):
 
         self.debug_msg("starttag", f"{self.get_starttag_text()!r}")
 
-        if tag in ("ul", "ol"):
+        if tag in ("ul", "ol") and self.__list_level > 0:
             self.__list_level -= 1
 
         if tag in BLOCK_TAGS:
-- 
2.43.0


From 2a7f6f4ca09138ed4c4641999107d88546b7720a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 19/33] fix: only h1 to h6 are html headlines

---
 creole/parser/html_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index ca058c9..ab0a32d 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -35,7 +35,7 @@ inline_re = re.compile(r'''
 ''', re.VERBOSE | re.UNICODE)
 
 
-headline_tag_re = re.compile(r"h(\d)", re.UNICODE)
+headline_tag_re = re.compile(r"h([1-6])$", re.UNICODE)
 
 # ------------------------------------------------------------------------------
 
-- 
2.43.0


From f21ed7c638378e59494216a06515a00ed0501ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:25 +0000
Subject: [PATCH 20/33] fix: do not trust placeholder tags which are part of
 the html input

---
 creole/parser/html_parser.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index ab0a32d..012cb2d 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -223,12 +223,19 @@ class HtmlParser(HTMLParser):
         attrs = [(name, value or "") for name, value in attrs]
         attr_dict = dict(attrs)
         if tag in (self._block_placeholder, self._inline_placeholder):
-            id = int(attr_dict["id"])
-#            block_type = attr_dict["type"]
+            block_type = attr_dict.get("type")
+            try:
+                content = self.blockdata[int(attr_dict["id"])]
+            except (KeyError, ValueError, IndexError):
+                content = None
+            if content is None or block_type not in ("pre", "pass"):
+                # not created by _pre_cut()
+                DocNode(tag, self.cur, None, attrs)
+                return
             DocNode(
-                f"{tag}_{attr_dict['type']}",
+                f"{tag}_{block_type}",
                 self.cur,
-                content=self.blockdata[id],
+                content=content,
                 #                attrs = attr_dict
             )
         elif tag in ("li", "ul", "ol"):
-- 
2.43.0


From 4409eace30cba11038e4842c2cc9acd221de9ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 21/33] fix: process the rest of the html data which is
 buffered by HTMLParser

---
 creole/parser/html_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 012cb2d..b503906 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -154,6 +154,7 @@ class HtmlParser(HTMLParser):
             print("-" * 79)
 
         HTMLParser.feed(self, data)
+        self.close()
 
         return self.root
 
-- 
2.43.0


From 4e8a095a232da191f169e52f9917182d8c9cccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:54 +0000
Subject: [PATCH 22/33] fix: keep all cells of tables with rows of different
 length

README.md and README.rst are generated files and regenerated here: they
missed the cells, too.
---
 README.md                     | 10 +++++-----
 README.rst                    | 20 ++++++++++----------
 creole/shared/markup_table.py |  5 +++++
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/README.md b/README.md
index 047689f..5f1fd95 100644
--- a/README.md
+++ b/README.md
@@ -21,10 +21,10 @@ Existing converters:
 
 The creole2html part based on the creole markup parser and emitter from the MoinMoin project by Radomir Dopieralski and Thomas Waldmann.
 
-| ![Build Status on github](https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master "Build Status on github") |
-| ![Coverage Status on coveralls.io](https://coveralls.io/repos/jedie/python-creole/badge.svg "Coverage Status on coveralls.io")    |
-| ![Status on landscape.io](https://landscape.io/github/jedie/python-creole/main/landscape.svg "Status on landscape.io")            |
-| ![PyPi version](https://badge.fury.io/py/python-creole.svg "PyPi version")                                                        |
+| ![Build Status on github](https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master "Build Status on github") |                                                                                                          |
+| ![Coverage Status on coveralls.io](https://coveralls.io/repos/jedie/python-creole/badge.svg "Coverage Status on coveralls.io")    | [coveralls.io/r/jedie/python-creole](https://coveralls.io/r/jedie/python-creole)                         |
+| ![Status on landscape.io](https://landscape.io/github/jedie/python-creole/main/landscape.svg "Status on landscape.io")            | [landscape.io/github/jedie/python-creole/master](https://landscape.io/github/jedie/python-creole/master) |
+| ![PyPi version](https://badge.fury.io/py/python-creole.svg "PyPi version")                                                        | [pypi.org/project/python-creole/](https://pypi.org/project/python-creole/)                               |
 
 # install
 
@@ -439,4 +439,4 @@ first source code was written 27.11.2008: [Forum thread (de)](http://www.python-
 
 ------------
 
-``Note: this file is generated from README.creole 2022-08-23 07:57:12 with "python-creole"``
\ No newline at end of file
+``Note: this file is generated from README.creole 2023-08-24 15:49:20 with "python-creole"``
\ No newline at end of file
diff --git a/README.rst b/README.rst
index 4f70129..06c1dbf 100644
--- a/README.rst
+++ b/README.rst
@@ -27,15 +27,15 @@ Existing converters:
 
 The creole2html part based on the creole markup parser and emitter from the MoinMoin project by Radomir Dopieralski and Thomas Waldmann.
 
-+-----------------------------------+
-| |Build Status on github|          |
-+-----------------------------------+
-| |Coverage Status on coveralls.io| |
-+-----------------------------------+
-| |Status on landscape.io|          |
-+-----------------------------------+
-| |PyPi version|                    |
-+-----------------------------------+
++-----------------------------------+---------------------------------------------------+
+| |Build Status on github|          |                                                   |
++-----------------------------------+---------------------------------------------------+
+| |Coverage Status on coveralls.io| | `coveralls.io/r/jedie/python-creole`_             |
++-----------------------------------+---------------------------------------------------+
+| |Status on landscape.io|          | `landscape.io/github/jedie/python-creole/master`_ |
++-----------------------------------+---------------------------------------------------+
+| |PyPi version|                    | `pypi.org/project/python-creole/`_                |
++-----------------------------------+---------------------------------------------------+
 
 .. |Build Status on github| image:: https://github.com/jedie/python-creole/workflows/test/badge.svg?branch=master
 .. |Coverage Status on coveralls.io| image:: https://coveralls.io/repos/jedie/python-creole/badge.svg
@@ -710,4 +710,4 @@ donation
 
 ------------
 
-``Note: this file is generated from README.creole 2022-08-23 07:57:12 with "python-creole"``
\ No newline at end of file
+``Note: this file is generated from README.creole 2023-08-24 15:49:20 with "python-creole"``
\ No newline at end of file
diff --git a/creole/shared/markup_table.py b/creole/shared/markup_table.py
index 70611c2..5b68494 100644
--- a/creole/shared/markup_table.py
+++ b/creole/shared/markup_table.py
@@ -50,6 +50,11 @@ class MarkupTable:
                 line_cells.append(cell)
             cells.append(line_cells)
 
+        # fill up short rows
+        column_count = max((len(line_cells) for line_cells in cells), default=0)
+        for line_cells in cells:
+            line_cells += [""] * (column_count - len(line_cells))
+
         # Build a list of max len for every column
         widths = [max(map(len, col)) for col in zip(*cells)]
 
-- 
2.43.0


From c57bcd634307218bbc978cfe62f562b2b65d1737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 23/33] fix: use the marker of the own list for the items
 around a nested list

---
 creole/emitter/html2rest_emitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/creole/emitter/html2rest_emitter.py b/creole/emitter/html2rest_emitter.py
index 14ede32..df2f942 100644
--- a/creole/emitter/html2rest_emitter.py
+++ b/creole/emitter/html2rest_emitter.py
@@ -267,8 +267,10 @@ class ReStructuredTextEmitter(BaseEmitter):
         return result
 
     def _list_emit(self, node, list_type):
+        outer_list_markup = self._list_markup
         self._list_markup = list_type
         content = self.emit_children(node)
+        self._list_markup = outer_list_markup
 
         if node.level == 1:
             # FIXME: This should be made ​​easier and better
-- 
2.43.0


From 9c14dee906860935ce333d718471a9f36a1b868b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 24/33] fix: keep a incomplete html entity at the end of the
 html data

---
 creole/parser/html_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index b503906..94c04b6 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -154,6 +154,10 @@ class HtmlParser(HTMLParser):
             print("-" * 79)
 
         HTMLParser.feed(self, data)
+        if self.rawdata.startswith("&"):
+            # close() would drop the "&" of a incomplete entity
+            self.handle_data(self.rawdata)
+            self.rawdata = ""
         self.close()
 
         return self.root
-- 
2.43.0


From aef1b8da053e770af32c64483d22e5be531be153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 25/33] fix: html tags can have the name of a internal node
 type

---
 creole/parser/html_parser_config.py | 6 ++++++
 creole/shared/base_emitter.py       | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/creole/parser/html_parser_config.py b/creole/parser/html_parser_config.py
index 38557ed..e7d618a 100644
--- a/creole/parser/html_parser_config.py
+++ b/creole/parser/html_parser_config.py
@@ -19,3 +19,9 @@ BLOCK_TAGS = (
     "br"
 )
 IGNORE_TAGS = ("tbody",)
+
+# Kind of nodes which are created by the parser and not by a tag with this name
+PARSER_NODES = (
+    "document", "data", "charref", "entityref", "headline",
+    "blockdata_pre", "blockdata_pass", "inlinedata_pre",
+)
diff --git a/creole/shared/base_emitter.py b/creole/shared/base_emitter.py
index 78412eb..f4ce788 100644
--- a/creole/shared/base_emitter.py
+++ b/creole/shared/base_emitter.py
@@ -9,7 +9,7 @@
 
 
 from creole.html_tools.deentity import Deentity
-from creole.parser.html_parser_config import BLOCK_TAGS
+from creole.parser.html_parser_config import BLOCK_TAGS, PARSER_NODES
 from creole.shared.markup_table import MarkupTable
 from creole.shared.unknown_tags import transparent_unknown_nodes
 
@@ -224,6 +224,9 @@ class BaseEmitter:
 
         method_name = f"{node.kind}_emit"
         emit_method = getattr(self, method_name, None)
+        if node.kind in PARSER_NODES and node.content is None and node.level is None and node is not self.root:
+            # A unknown html tag with the name of a internal node, e.g.: <data>
+            emit_method = None
 
         if emit_method:
             content = emit_method(node)
-- 
2.43.0


From 0e2de892b4cc2c648c4fa7349858ddf5b69db949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 26/33] fix: html2markdown <pre><code> blocks: no debug output
 and no lost text

---
 creole/emitter/html2markdown_emitter.py | 29 +++++++++++++++++--------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/creole/emitter/html2markdown_emitter.py b/creole/emitter/html2markdown_emitter.py
index 15db361..f241862 100644
--- a/creole/emitter/html2markdown_emitter.py
+++ b/creole/emitter/html2markdown_emitter.py
@@ -70,24 +70,35 @@ class MarkdownEmitter(BaseEmitter):
         """pre block -> with newline at the end"""
         return f'```{self.deentity.replace_all(node.content)}```\n'
 
+    def _get_code(self, node: DocNode):
+        """the text of a code node and its children, e.g.: highlighted code"""
+        result = []
+        for child in node.children:
+            if child.kind in ('charref', 'entityref'):
+                result.append(self.emit_node(child))
+            else:
+                result.append(child.content or self._get_code(child))
+        return ''.join(result)
+
     def inlinedata_pre_emit(self, node: DocNode):
         """a pre inline block -> no newline at the end"""
         pre_content = node.content
 
         if pre_content.endswith('</code>'):
             # TODO: The parser should parse this!
-            p = HtmlParser(debug=True)
+            p = HtmlParser()
             root_node: DocNode = p.feed(pre_content, preprocess=False)
-            code_node: DocNode = root_node.children[0]
-            code = self.deentity.replace_all(code_node.children[0].content)
+            if len(root_node.children) == 1 and root_node.children[0].kind == 'code':
+                code_node: DocNode = root_node.children[0]
+                code = self._get_code(code_node)
 
-            class_value = code_node.attrs.get('class')
-            if class_value:
-                if class_value.startswith('language-'):
-                    language = class_value.partition('-')[2]
-                    return f'\n```{language}{code}```\n'
+                class_value = code_node.attrs.get('class')
+                if class_value:
+                    if class_value.startswith('language-'):
+                        language = class_value.partition('-')[2]
+                        return f'\n```{language}{code}```\n'
 
-            return f'\n```{code}```\n'
+                return f'\n```{code}```\n'
 
         return f'\n```{self.deentity.replace_all(pre_content)}```\n'
 
-- 
2.43.0


From 7987a2da87ccccf865c4a521123c124c3e629ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:11 +0000
Subject: [PATCH 27/33] fix: the command line tools open the destination after
 the conversion

---
 creole/cmdline.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/creole/cmdline.py b/creole/cmdline.py
index 18d9074..9754d72 100644
--- a/creole/cmdline.py
+++ b/creole/cmdline.py
@@ -49,10 +49,11 @@ class CreoleCLI:
         )
 
         with codecs.open(sourcefile, "r", encoding=encoding) as infile:
-            with codecs.open(destination, "w", encoding=encoding) as outfile:
-                content = infile.read()
-                converted = self.convert_func(content)
-                outfile.write(converted)
+            content = infile.read()
+        # Don't touch the destination until there is something to write:
+        data = self.convert_func(content).encode(encoding)
+        with open(destination, "wb") as outfile:
+            outfile.write(data)
         print(f"done. {destination!r} created.")
 
 
-- 
2.43.0


From dcf2a48b44b49ebd88b8ab9970613c576050c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:16 +0000
Subject: [PATCH 28/33] fix: get_long_description() used a removed html2rest()
 argument

---
 creole/setup_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 2b716ea..15d2053 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -77,7 +77,7 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
         # convert html to ReSt
         long_description_rest = html2rest(
             long_description_html,
-            emitter_kwargs={'unknown_emit': unknown_emit}
+            unknown_emit=unknown_emit
         )
     except Exception:
         if raise_errors:
-- 
2.43.0


From 11d1071be1cfc3080ee51faa147344e5e02b8cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:21 +0000
Subject: [PATCH 29/33] fix: read and write the README files with utf-8
 encoding

---
 creole/setup_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index 15d2053..ab42247 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -105,7 +105,7 @@ def get_long_description(package_root, filename='README.creole', raise_errors=No
 
 
 def _generate_rst_readme(*, creole_readme_path):
-    with creole_readme_path.open('r') as f:
+    with creole_readme_path.open('r', encoding='utf-8') as f:
         creole_readme = f.read().strip()
 
     # convert creole into html
@@ -131,7 +131,7 @@ def _generate_markdown_readme(*, creole_readme_path):
 
     # convert creole into html
     html_readme = creole2html(creole_readme)
-    creole_readme_path.with_suffix('.html').write_text(html_readme)
+    creole_readme_path.with_suffix('.html').write_text(html_readme, encoding='utf-8')
 
     # convert html to Markdown
     markdown_readme = html2markdown(
@@ -163,7 +163,7 @@ def update_rst_readme(package_root, filename='README.creole'):
 
     # Check if content was changed
     changed = False
-    with rest_readme_path.open('r') as f:
+    with rest_readme_path.open('r', encoding='utf-8') as f:
         for new_line, old_line in zip(rest_readme.splitlines(), f):
             if new_line.rstrip() != old_line.rstrip():
                 changed = True
@@ -174,7 +174,7 @@ def update_rst_readme(package_root, filename='README.creole'):
         print('nothing changed, ok.')
         return rest_readme_path
 
-    with rest_readme_path.open('w') as f:
+    with rest_readme_path.open('w', encoding='utf-8') as f:
         f.write(rest_readme)
 
         # Add a note about generation with modification time from source:
@@ -211,7 +211,7 @@ def update_markdown_readme(package_root, filename='README.creole'):
 
     # # Check if content was changed
     changed = False
-    with markdown_readme_path.open('r') as f:
+    with markdown_readme_path.open('r', encoding='utf-8') as f:
         for new_line, old_line in zip(markdown_readme.splitlines(), f):
             if new_line.rstrip() != old_line.rstrip():
                 changed = True
@@ -222,7 +222,7 @@ def update_markdown_readme(package_root, filename='README.creole'):
         print('nothing changed, ok.')
         return markdown_readme_path
 
-    with markdown_readme_path.open('w') as f:
+    with markdown_readme_path.open('w', encoding='utf-8') as f:
         f.write(markdown_readme)
 
         # Add a note about generation with modification time from source:
-- 
2.43.0


From 79de05739b750a37263d93401daf6deed75fac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:26 +0000
Subject: [PATCH 30/33] fix: the README update detects removed and added lines,
 too

---
 creole/setup_utils.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/creole/setup_utils.py b/creole/setup_utils.py
index ab42247..9031c63 100644
--- a/creole/setup_utils.py
+++ b/creole/setup_utils.py
@@ -144,6 +144,17 @@ def _generate_markdown_readme(*, creole_readme_path):
     return markdown_readme
 
 
+def _readme_changed(readme_path, readme):
+    """
+    Is the README file missing or has it another content than the generated readme?
+    """
+    if not readme_path.is_file():
+        return True
+    content = readme_path.read_text(encoding='utf-8')
+    content = content.rsplit('\n', 4)[0]  # remove note about generation with modification time
+    return content != readme
+
+
 def update_rst_readme(package_root, filename='README.creole'):
     """
     Generate README.rst from README.creole
@@ -162,13 +173,7 @@ def update_rst_readme(package_root, filename='README.creole'):
     rest_readme = _generate_rst_readme(creole_readme_path=creole_readme_path)
 
     # Check if content was changed
-    changed = False
-    with rest_readme_path.open('r', encoding='utf-8') as f:
-        for new_line, old_line in zip(rest_readme.splitlines(), f):
-            if new_line.rstrip() != old_line.rstrip():
-                changed = True
-                break
-
+    changed = _readme_changed(rest_readme_path, rest_readme)
     if not changed:
         # The existing README.rst is up-to-date: Don't change the timestamp
         print('nothing changed, ok.')
@@ -210,13 +215,7 @@ def update_markdown_readme(package_root, filename='README.creole'):
     markdown_readme = _generate_markdown_readme(creole_readme_path=creole_readme_path)
 
     # # Check if content was changed
-    changed = False
-    with markdown_readme_path.open('r', encoding='utf-8') as f:
-        for new_line, old_line in zip(markdown_readme.splitlines(), f):
-            if new_line.rstrip() != old_line.rstrip():
-                changed = True
-                break
-
+    changed = _readme_changed(markdown_readme_path, markdown_readme)
     if not changed:
         # The existing README.rst is up-to-date: Don't change the timestamp
         print('nothing changed, ok.')
-- 
2.43.0


From b43c5d00d27f703baa44276278f5e7271483f47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 31/33] fix: start the missing newline note of the diff in a
 new line

---
 creole/shared/diff_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/creole/shared/diff_utils.py b/creole/shared/diff_utils.py
index b6fa05d..5f6103f 100644
--- a/creole/shared/diff_utils.py
+++ b/creole/shared/diff_utils.py
@@ -29,6 +29,6 @@ def unified_diff(old, new, filename=None):
 
         # Work around missing newline (http://bugs.python.org/issue2142).
         if text and not line.endswith('\n'):
-            text += 'n\\ No newline at end of file\n'
+            text += '\n\\ No newline at end of file\n'
 
     return text
-- 
2.43.0


From 1b7e455456b37a357572a5211fa98265b0918f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:00 +0000
Subject: [PATCH 32/33] fix: attributes of unknown tags were written as JSON,
 not as HTML

---
 creole/shared/document_tree.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/creole/shared/document_tree.py b/creole/shared/document_tree.py
index 7e22266..e723fb4 100644
--- a/creole/shared/document_tree.py
+++ b/creole/shared/document_tree.py
@@ -9,8 +9,7 @@
 
 import inspect
 import warnings
-
-from creole.shared.utils import dict2string
+from xml.sax.saxutils import quoteattr
 
 
 class DocNode:
@@ -47,7 +46,12 @@ class DocNode:
         >>> node.get_attrs_as_string()
         'foo="bar" no="ABC"'
         """
-        return dict2string(self.attrs)
+        attr_list = []
+        for key, value in sorted(self.attrs.items()):
+            if isinstance(value, str):
+                value = quoteattr(value)
+            attr_list.append(f"{key}={value}")
+        return " ".join(attr_list)
 
     def __str__(self):
         return str(self.__repr__())
-- 
2.43.0


From 42249e24d798bc875a771826807d89e4eb19dcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:52 +0000
Subject: [PATCH 33/33] fix: html parser: a <hr> without slash swallowed the
 text after it

---
 creole/parser/html_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/creole/parser/html_parser.py b/creole/parser/html_parser.py
index 94c04b6..9018fcf 100644
--- a/creole/parser/html_parser.py
+++ b/creole/parser/html_parser.py
@@ -202,8 +202,8 @@ class HtmlParser(HTMLParser):
             if tag in ("ul", "ol"):
                 self.__list_level += 1
             self.cur = DocNode(tag, self.cur, None, attrs, level=self.__list_level)
-        elif tag in ("img", "br"):
-            # Work-a-round if img or br  tag is not marked as startendtag:
+        elif tag in ("img", "br", "hr"):
+            # Work-a-round if img, br or hr tag is not marked as startendtag:
             # wrong: <img src="/image.jpg"> doesn't work if </img> not exist
             # right: <img src="/image.jpg" />
             DocNode(tag, self.cur, None, attrs)
@@ -254,7 +254,7 @@ class HtmlParser(HTMLParser):
 
         self.debug_msg("endtag", f"{tag!r}")
 
-        if tag == "br":  # handled in starttag
+        if tag in ("br", "hr"):  # handled in starttag
             return
 
         self.debug_msg("starttag", f"{self.get_starttag_text()!r}")
-- 
2.43.0

