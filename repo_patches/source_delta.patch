From 9b1eab988299846224807177beeaabaeac0ababc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:17 +0000
Subject: [PATCH 01/40] fix: a $ inside a braced expression is part of that
 expression

---
 kajiki/text.py         | 3 +++
 kajiki/xml_template.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index 1cbe583..794a231 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -78,6 +78,9 @@ class _Scanner(object):
         source = self.source
         for mo in _re_pattern.finditer(source):
             start = mo.start()
+            if start < self.pos:
+                # part of the expression or tag that was just consumed
+                continue
             if start > self.pos:
                 yield self.text(source[self.pos:start])
                 self.pos = start
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 8615804..49f953d 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -513,6 +513,9 @@ class _TextCompiler(object):
         source = self.source
         for mo in self._re_pattern.finditer(source):
             start = mo.start()
+            if start < self.pos:
+                # this "$" is part of the expression that was just consumed
+                continue
             if start > self.pos:
                 yield self.text(source[self.pos:start])
             self.pos = start
-- 
2.43.0


From 8cc87c0cd5eb4fd0caddda68cd8783e9e2bca4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:20 +0000
Subject: [PATCH 02/40] fix: report an unknown entity as XMLTemplateParseError

---
 kajiki/xml_template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 49f953d..8bfc1d7 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -681,6 +681,8 @@ class _Parser(sax.ContentHandler):
             # itself, and we don't want to maintain a separate diff.
             # So just ensure we ask for entities always recorded with trailing semicolon.
             name += ';'
+        if name not in html5:
+            raise SAXParseException('undefined entity &%s' % name, None, self._parser)
         return self.characters(html5[name])
 
     def startElementNS(self, name, qname, attrs):  # pragma no cover
-- 
2.43.0


From e173a3bdab42ce95c9f37ae733ee3167b19d26ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:22 +0000
Subject: [PATCH 03/40] fix: py:with restores variables that come from the
 context

---
 kajiki/template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 29f7555..c66c670 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -117,7 +117,8 @@ class _Template(object):
         pushed on top of a stack by :class:`kajiki.ir.WithNode` so that
         when the node is exited the previous values can be recovered.
         """
-        self._with_stack.append([locals_.get(k, ()) for k in vars])
+        self._with_stack.append([
+            locals_.get(k, self.__globals__.get(k, ())) for k in vars])
 
     def _pop_with(self):
         """Exists a ``py:with`` block.
-- 
2.43.0


From 00c6e2d4292060e284688ec23fe0f7103ee49cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:25 +0000
Subject: [PATCH 04/40] fix: accumulate_str accepts markup that is not a string

---
 kajiki/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/util.py b/kajiki/util.py
index bf91401..5e0619e 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -6,6 +6,7 @@ from collections import deque
 import sys
 from random import randint
 from threading import local
+from nine import str
 
 
 def debug():  # pragma no cover
@@ -70,7 +71,7 @@ class flattener(object):
             elif x is None:
                 pass
             else:
-                s += x
+                s += str(x)
         return s
 
     def __iter__(self):
-- 
2.43.0


From 7df9d18c7fb058ddd215875c365f54b64256c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:42 +0000
Subject: [PATCH 05/40] fix: py:attrs renders markup values instead of the repr
 of their wrapper

---
 kajiki/template.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index c66c670..09b7487 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -244,7 +244,10 @@ class _Template(object):
                 if mode.startswith('html') and k in HTML_EMPTY_ATTRS:
                     yield ' ' + k.lower()
                 else:
-                    yield ' %s="%s"' % (k, self._escape(v))
+                    v = self._escape(v)
+                    if isinstance(v, flattener):
+                        v = v.accumulate_str()
+                    yield ' %s="%s"' % (k, v)
 
     def _collect(self, it):
         result = []
-- 
2.43.0


From 2b230582e04f28fbbfa780974a3dbeb2762ca358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:45 +0000
Subject: [PATCH 06/40] fix: text templates can be included and imported
 through a loader

---
 kajiki/text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 794a231..055337a 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -51,7 +51,9 @@ _re_pattern = re.compile(_pattern, re.VERBOSE | re.IGNORECASE | re.MULTILINE)
 
 
 def TextTemplate(source=None, filename=None, autoescape=False,
-                 encoding='utf-8'):
+                 encoding='utf-8', is_fragment=False, base_globals=None):
+    # *is_fragment* is what py:include and py:import ask the loader for; text
+    # templates have no DOCTYPE, so they are the same with or without it.
     assert source or filename, "You must either provide a *source* argument " \
         "or a *filename* argument to TextTemplate()."
     if source is None:
@@ -64,7 +66,7 @@ def TextTemplate(source=None, filename=None, autoescape=False,
     scanner = _Scanner(filename, source)
     tree = _Parser(scanner, autoescape).parse()
     tree.filename = filename
-    return kajiki.template.from_ir(tree)
+    return kajiki.template.from_ir(tree, base_globals=base_globals)
 
 
 class _Scanner(object):
-- 
2.43.0


From 703141e2d71c54284a7fae4a87313a0de41a803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:59 +0000
Subject: [PATCH 07/40] fix: FileLoader honours xml_autoblocks without
 force_mode

---
 kajiki/loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index b120fa2..75c2b2e 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -100,6 +100,8 @@ class FileLoader(Loader):
                                *args, **options)
         else:
             ext = os.path.splitext(filename)[1][1:]
+            if ext != 'txt' and self._xml_autoblocks is not None:
+                options.setdefault('autoblocks', self._xml_autoblocks)
             return self.extension_map[ext](
                 source=None, filename=filename, *args, **options)
 
-- 
2.43.0


From 08c4f5a0828fc8cb411190c52f807bf32c005fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:18 +0000
Subject: [PATCH 08/40] fix: FileLoader passes the requested encoding on to the
 template

---
 kajiki/loader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index 75c2b2e..33c6f0b 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -77,14 +77,15 @@ class FileLoader(Loader):
                 del self.modules[name]
         return super(FileLoader, self).import_(name, *args, **kwargs)
 
-    def _load(self, name, encoding='utf-8', *args, **kwargs):
-        '''Text templates are read in text mode and XML templates are read in
-        binary mode. Thus, the ``encoding`` argument is only used for reading
-        text template files.
+    def _load(self, name, encoding=None, *args, **kwargs):
+        '''The ``encoding`` argument, if given, is used for reading the
+        template file.
         '''
         from kajiki import XMLTemplate, TextTemplate
         options = self._template_options.copy()
         options.update(kwargs)
+        if encoding is not None:
+            options['encoding'] = encoding
 
         filename = self._filename(name)
         if filename is None:
-- 
2.43.0


From aa4339b88aa18c58d9ea7bdc92fbe0250e054acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:21 +0000
Subject: [PATCH 09/40] fix: FileLoader.import_ of a vanished file, or racing
 another reload

---
 kajiki/loader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index 33c6f0b..b04a120 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -72,9 +72,11 @@ class FileLoader(Loader):
     def import_(self, name, *args, **kwargs):
         filename = self._filename(name)
         if self._reload and name in self.modules:
+            if filename is None:
+                raise IOError('Unknown template %r' % name)
             mtime = os.stat(filename).st_mtime
             if mtime > self._timestamps.get(name, 0):
-                del self.modules[name]
+                self.modules.pop(name, None)  # maybe done by another thread
         return super(FileLoader, self).import_(name, *args, **kwargs)
 
     def _load(self, name, encoding=None, *args, **kwargs):
-- 
2.43.0


From f23e4669d09e7546473198aff1d9fc051848fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:24 +0000
Subject: [PATCH 10/40] fix: the Pyramid loader recompiles only templates that
 changed

---
 kajiki/integration/pyramid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/integration/pyramid.py b/kajiki/integration/pyramid.py
index b8a3779..923c9ae 100644
--- a/kajiki/integration/pyramid.py
+++ b/kajiki/integration/pyramid.py
@@ -72,6 +72,7 @@ class PyramidKajikiLoader(Loader):
 
     def _load(self, name, *a, **kw):
         '''Called when the template actually needs to be (re)compiled.'''
+        self._timestamps[name] = stat(name).st_mtime
         return XMLTemplate(source=None, filename=name,
                            mode=self.mode, *a, **kw)
 
@@ -85,7 +86,7 @@ class PyramidKajikiLoader(Loader):
         if self.auto_reload and name in self.modules:
             mtime = stat(name).st_mtime
             if mtime > self._timestamps.get(name, 0):
-                del self.modules[name]
+                self.modules.pop(name, None)  # maybe done by another thread
         return super(PyramidKajikiLoader, self).import_(name, *a, **kw)
 
     def __call__(self, value, system, is_fragment=False):
-- 
2.43.0


From cc9fd1941028072ebf10beb432b7a386e9d69dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:03 +0000
Subject: [PATCH 11/40] fix: control structures with an empty body render
 nothing instead of failing

---
 kajiki/ir.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 9163723..8c8dee4 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -52,10 +52,18 @@ class HierNode(Node):
         for x in optimize(flattener(map(flattener, self.body))):
             yield x
 
+    def block_iter(self):
+        is_empty = True
+        for x in self.body_iter():
+            yield x
+            is_empty = False
+        if is_empty:  # In Python, a block without a body is a SyntaxError.
+            yield PassNode()  # Prevent creation of a block without a body
+
     def __iter__(self):
         yield self
         yield IndentNode()
-        for x in self.body_iter():
+        for x in self.block_iter():
             yield x
         yield DedentNode()
 
@@ -147,17 +155,6 @@ class DefNode(HierNode):
         yield self.line(self.prefix)
         yield self.line('def %s:' % (self.decl))
 
-    def __iter__(self):
-        yield self
-        yield IndentNode()
-        is_empty = True
-        for x in self.body_iter():
-            yield x
-            is_empty = False
-        if is_empty:  # In Python, a function without a body is a SyntaxError.
-            yield PassNode()  # Prevent creation of a function without a body
-        yield DedentNode()
-
 
 class InnerDefNode(DefNode):
     prefix = '@__kj__.flattener.decorate'
@@ -185,7 +182,7 @@ class CallNode(HierNode):
     def __iter__(self):
         yield self
         yield IndentNode()
-        for x in self.body_iter():
+        for x in self.block_iter():
             yield x
         yield DedentNode()
         yield self.CallTail(self.call)
-- 
2.43.0


From f41ebcf245983b4e28baead60a9ca54b4c93d29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:06 +0000
Subject: [PATCH 12/40] fix: text templates may end in -%} or in a backslash

---
 kajiki/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 055337a..f76495f 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -153,7 +153,7 @@ class _Scanner(object):
         self.pos = end + 2
         if body.endswith('-'):
             body = body[:-1]
-            while self.source[self.pos] in ' \t':
+            while self.source[self.pos:self.pos + 1] in (' ', '\t'):
                 self.pos += 1
         return self.tag(tagname, body)
 
@@ -350,7 +350,7 @@ class _Tag(_Token):
 def _unescape_newlines(text):
     i = 0
     while i < len(text):
-        if text[i] == '\\':
+        if text[i] == '\\' and i + 1 < len(text):
             if text[i + 1] != '\n':
                 yield text[i + 1]
             i += 2
-- 
2.43.0


From 3f5cd911c205b17b4338181e750f22b6ab33cdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:27 +0000
Subject: [PATCH 13/40] fix: a multi-line DOCTYPE does not shift the reported
 source lines

---
 kajiki/xml_template.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 8bfc1d7..f4f4db0 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -605,8 +605,9 @@ class _Parser(sax.ContentHandler):
         self._filename = filename
         # Store the original DTD in the document for the compiler to use later
         self._doc._dtd, position, source = extract_dtd(source)
-        # Use our own DTD just for XML parsing
-        self._source = source[:position] + self.DTD + source[position:]
+        # Use our own DTD just for XML parsing; keep its number of lines
+        self._source = (source[:position] + self.DTD +
+                        '\n' * self._doc._dtd.count('\n') + source[position:])
         self._cdata_stack = []
 
     def parse(self):
-- 
2.43.0


From 17b5a8711b76c442fc554ea611783b519252bbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:30 +0000
Subject: [PATCH 14/40] fix: errors in braced expressions report the line in
 the template

---
 kajiki/xml_template.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index f4f4db0..9baf8f0 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -556,7 +556,7 @@ class _TextCompiler(object):
                 # for example unclosed strings
                 raise XMLTemplateCompileError(
                     "Kajiki can't compile the python expression `%s`" % py_expr()[:-1],
-                    doc=self.doc, filename=self.filename, linen=self.lineno)
+                    doc=self.doc, filename=self.filename, linen=self.real_lineno)
             else:
                 # if the expression ends in a } then it may be valid
                 try:
@@ -565,14 +565,14 @@ class _TextCompiler(object):
                     # for example + operators with a single operand
                     raise XMLTemplateCompileError(
                         "Kajiki detected an invalid python expression `%s`" % py_expr()[:-1],
-                        doc=self.doc, filename=self.filename, linen=self.lineno)
+                        doc=self.doc, filename=self.filename, linen=self.real_lineno)
 
             py_text = py_expr(end - 1)
             self.pos = end
             return self.expr(py_text)
         else:
             raise XMLTemplateCompileError("Braced expression not terminated",
-                                          doc=self.doc, filename=self.filename, linen=self.lineno)
+                                          doc=self.doc, filename=self.filename, linen=self.real_lineno)
 
 
 class _Parser(sax.ContentHandler):
-- 
2.43.0


From f770d7a6cd8511db3374cb2365b532d52d5b6346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:25 +0000
Subject: [PATCH 15/40] fix: &, < and > can be used inside text expressions

---
 kajiki/xml_template.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 9baf8f0..6235515 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -19,7 +19,7 @@ from . import ir
 from . import template
 from .ddict import defaultdict
 from .doctype import DocumentTypeDeclaration, extract_dtd
-from .entities import html5, unescape
+from .entities import html5
 from .html_utils import (HTML_OPTIONAL_END_TAGS, HTML_REQUIRED_END_TAGS,
                          HTML_CDATA_TAGS)
 from .markup_template import QDIRECTIVES, QDIRECTIVES_DICT
@@ -246,15 +246,13 @@ class _Compiler(object):
                     # Special behaviour for <script>, <style> tags:
                     if self.mode == 'xml':  # Start escaping
                         yield ir.TextNode('/*<![CDATA[*/')
-                    # Need to unescape the contents of these tags
+                    # The contents of these tags are not escaped
                     for child in node.childNodes:
                         # CDATA for scripts and styles are automatically managed.
                         if getattr(child, '_cdata', False):
                             continue
                         assert isinstance(child, dom.Text)
-                        for x in self._compile_text(child):
-                            if child.escaped:  # If user declared CDATA no escaping happened.
-                                x.text = unescape(x.text)
+                        for x in self._compile_text(child, escape=False):
                             yield x
                     if self.mode == 'xml':  # Finish escaping
                         yield ir.TextNode('/*]]>*/')
@@ -372,9 +370,10 @@ class _Compiler(object):
             *self._compile_nop(node))
 
     @annotate
-    def _compile_text(self, node):
+    def _compile_text(self, node, escape=True):
         """Compile text nodes to their intermediate representation"""
-        kwargs = {}
+        # If user declared CDATA no escaping happens.
+        kwargs = {'escape': escape and getattr(node, 'escaped', False)}
         if node.parentNode and node.parentNode.tagName in HTML_CDATA_TAGS:
             # script and style should always be untranslatable.
             kwargs['node_type'] = ir.TextNode
@@ -471,7 +470,8 @@ class _TextCompiler(object):
     instances and :class:`.ir.TextNode` instances accordingly.
     """
     def __init__(self, filename, source, lineno,
-                 node_type=make_text_node, in_html_attr=False, compiler_instance=None):
+                 node_type=make_text_node, in_html_attr=False, compiler_instance=None,
+                 escape=False):
         self.filename = filename
         self.source = source
         self.orig_lineno = lineno
@@ -479,10 +479,14 @@ class _TextCompiler(object):
         self.pos = 0
         self.node_type = node_type
         self.in_html_attr = in_html_attr
+        self.escape = escape
         self.compiler_instance = compiler_instance
         self.doc = self.compiler_instance.doc
 
     def text(self, text):
+        # Only the text around expressions is escaped, never their source.
+        if self.escape:
+            text = sax.saxutils.escape(text)
         node = self.node_type(text)
         node.lineno = self.real_lineno
         self.lineno += text.count('\n')
@@ -657,12 +661,9 @@ class _Parser(sax.ContentHandler):
         assert name == popped.tagName
 
     def characters(self, content):
-        should_escape = not self._cdata_stack
-        if should_escape:
-            content = sax.saxutils.escape(content)
         node = self._doc.createTextNode(content)
         node.lineno = self._parser.getLineNumber()
-        node.escaped = should_escape
+        node.escaped = not self._cdata_stack
         self._els[-1].appendChild(node)
 
     def processingInstruction(self, target, data):
-- 
2.43.0


From 45019d09947e72d31469514cd768319fbac32d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:29 +0000
Subject: [PATCH 16/40] fix: CDATA markers directly inside a directive are not
 translatable text

---
 kajiki/xml_template.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 6235515..efb8aac 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -449,6 +449,10 @@ class _Compiler(object):
     @annotate
     def _compile_nop(self, node):
         for c in node.childNodes:
+            # Keep CDATA sections around if declared by user
+            if getattr(c, '_cdata', False):
+                yield ir.TextNode(c.data)
+                continue
             for x in self._compile_node(c):
                 yield x
 
-- 
2.43.0


From c3b39b4e263e02886d7b2a4eeeb1bce04736dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:20 +0000
Subject: [PATCH 17/40] fix: py:autoblock never remains in the output

---
 kajiki/xml_template.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index efb8aac..e3b20d7 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -152,20 +152,17 @@ class _Compiler(object):
         ir_node.lineno = dom_node.lineno
 
     def _is_autoblock(self, node):
-        if node.tagName not in self.autoblocks:
-            return False
-
         if node.hasAttribute('py:autoblock'):
             guard = node.getAttribute('py:autoblock').lower()
             if guard not in ('false', 'true'):
                 raise ValueError('py:autoblock is evaluated at compile time '
                                  'and only accepts True/False constants')
+            # We throw away the attribute so it doesn't remain in rendered nodes.
+            node.removeAttribute('py:autoblock')
             if guard == 'false':
-                # We throw away the attribute so it doesn't remain in rendered nodes.
-                node.removeAttribute('py:autoblock')
                 return False
 
-        return True
+        return node.tagName in self.autoblocks
 
     def _compile_node(self, node):
         """Convert a DOM node to its intermediate representation.
-- 
2.43.0


From f6867db735b86c142502f266d38a716d1455759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:23 +0000
Subject: [PATCH 18/40] fix: void elements with py:content get no end tag in
 html modes

---
 kajiki/xml_template.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index e3b20d7..76b215c 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -235,7 +235,9 @@ class _Compiler(object):
         if content:
             yield ir.TextNode('>', guard)
             yield ir.ExprNode(content)
-            yield ir.TextNode('</%s>' % node.tagName, guard)
+            if not (self.mode.startswith('html')
+                    and node.tagName in HTML_OPTIONAL_END_TAGS):
+                yield ir.TextNode('</%s>' % node.tagName, guard)
         else:
             if node.childNodes:
                 yield ir.TextNode('>', guard)
-- 
2.43.0


From 5d100db633e6a31d3d44da48032a4b3c87532a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:23 +0000
Subject: [PATCH 19/40] fix: a literal can be emitted more than once

---
 kajiki/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kajiki/util.py b/kajiki/util.py
index 5e0619e..48c3fc0 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -59,7 +59,7 @@ class flattener(object):
         if type(self.iterator) == flattener:
             return self.iterator.accumulate_str()
         s = ''
-        iter_stack = [self.iterator]
+        iter_stack = [iter(self.iterator)]
         while iter_stack:
             try:
                 x = next(iter_stack[-1])
@@ -67,7 +67,7 @@ class flattener(object):
                 iter_stack.pop()
                 continue
             if type(x) == flattener:
-                iter_stack.append(x.iterator)
+                iter_stack.append(iter(x.iterator))
             elif x is None:
                 pass
             else:
@@ -85,7 +85,7 @@ class flattener(object):
 
 
 def literal(text):
-    return flattener(iter([text]))
+    return flattener([text])  # a list, so that it can be emitted many times
 
 
 class NameGen(object):
-- 
2.43.0


From 9555678a76d8b77419ac6f179677349786850076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:18 +0000
Subject: [PATCH 20/40] fix: an unterminated braced expression at the end of
 text is a compile error

---
 kajiki/xml_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 76b215c..76e8346 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -559,7 +559,7 @@ class _TextCompiler(object):
                  for idx, line in enumerate(py_expr().splitlines())
                  if idx < se.lineno - 1]
             )
-            if py_expr(end)[-1] != '}':
+            if py_expr(end)[-1:] != '}':
                 # for example unclosed strings
                 raise XMLTemplateCompileError(
                     "Kajiki can't compile the python expression `%s`" % py_expr()[:-1],
-- 
2.43.0


From 322c0ff3da6c43523ac94c6af42d428bdb3bb7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:38 +0000
Subject: [PATCH 21/40] fix: functions are inherited at any depth of template
 inheritance

---
 kajiki/template.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 09b7487..36b1ae3 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -59,6 +59,7 @@ class _Template(object):
     loader = None
     base_globals = None
     filename = None
+    _extended_by = None
 
     def __init__(self, context=None):
         if context is None:
@@ -152,16 +153,21 @@ class _Template(object):
                 continue
             if not isinstance(v, TplFunc):
                 continue
-            if k not in self.__globals__:
-                self.__globals__[k] = v
-            if not hasattr(self, k):
-                def _(k=k):
-                    '''Capture the 'k' variable in a closure'''
-                    def trampoline(*a, **kw):
-                        global parent
-                        return getattr(parent, k)(*a, **kw)
-                    return trampoline
-                setattr(self, k, TplFunc(_()).bind_instance(self))
+            # Templates that extend this one inherit them through it.
+            heir = self
+            while heir is not None:
+                if k not in heir.__globals__:
+                    heir.__globals__[k] = v
+                if not hasattr(heir, k):
+                    def _(k=k):
+                        '''Capture the 'k' variable in a closure'''
+                        def trampoline(*a, **kw):
+                            global parent
+                            return getattr(parent, k)(*a, **kw)
+                        return trampoline
+                    setattr(heir, k, TplFunc(_()).bind_instance(heir))
+                heir = heir._extended_by
+        p_inst._extended_by = self
         p_globals['child'] = self
         p_globals['local'] = p_inst
         p_globals['self'] = self.__globals__['self']
-- 
2.43.0


From 5fe4322430bf388aae683d5222c390c482c68a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:11 +0000
Subject: [PATCH 22/40] fix: included and imported templates keep their own
 functions, blocks and helpers

---
 kajiki/template.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 36b1ae3..22a0ff9 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -91,6 +91,10 @@ class _Template(object):
         self._switch_stack = []
         self._with_stack = []
         self.__globals__.update(context)
+        for k, v in self.__methods__:
+            # functions of an including template do not replace its own
+            if isinstance(self.__globals__[k], TplFunc):
+                self.__globals__[k] = getattr(self, k)
         self.__globals__['_'] = self.__globals__['gettext']
         self.__globals__['value_of'] = self.__globals__.get
 
@@ -144,7 +148,7 @@ class _Template(object):
         for k, v in iteritems(self.__globals__):
             if k == '__main__':
                 continue
-            if not isinstance(v, TplFunc):
+            if not isinstance(v, TplFunc) or self._context.get(k) is v:
                 continue
             p_globals[k] = v
         # Find inherited funcs
@@ -208,7 +212,14 @@ class _Template(object):
         tpl_cls = self.loader.import_(name, is_fragment=True)
         if alias is None:
             alias = self.loader.default_alias_for(name)
-        r = gbls[alias] = tpl_cls(gbls)
+        context = dict(gbls)
+        context.update(self.__globals__)
+        # Each template has its own helpers.
+        context.pop('defined', None)
+        for k in ('self', 'local', 'parent', 'child'):
+            if isinstance(context.get(k), _Template):
+                del context[k]
+        r = gbls[alias] = self.__globals__[alias] = tpl_cls(context)
         return r
 
     def _escape(self, value):
-- 
2.43.0


From a51aedd033d7ffdd6032c394a6a0a8f9f979b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:15 +0000
Subject: [PATCH 23/40] fix: py:include does not bind a name in the including
 template

---
 kajiki/ir.py       |  2 +-
 kajiki/template.py | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 8c8dee4..14614c1 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -129,7 +129,7 @@ class IncludeNode(Node):
 
     def py(self):
         yield self.line(
-            'yield local.__kj__.import_(%r, None, self.__globals__).__main__()' % (
+            'yield local.__kj__.include(%r, self.__globals__).__main__()' % (
                 self.tpl_name))
 
 
diff --git a/kajiki/template.py b/kajiki/template.py
index 22a0ff9..298540c 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -80,6 +80,7 @@ class _Template(object):
             push_switch=self._push_switch,
             pop_switch=self._pop_switch,
             case=self._case,
+            include=self._include,
             import_=self._import,
             escape=self._escape,
             gettext=self._gettext,
@@ -201,7 +202,7 @@ class _Template(object):
         """Check against current ``py:switch`` value."""
         return obj == self._switch_stack[-1]
 
-    def _import(self, name, alias, gbls):
+    def _include(self, name, gbls):
         # Load template as a fragment to avoid extra <DOCTYPE> in included output.
         # Due to loader cache, this has the side effect that if the same
         # template is both included and used as a standalone page
@@ -210,8 +211,6 @@ class _Template(object):
         # Also there is no way to set a template as a fragment once loaded. 
         # So we can only do it through the loader.
         tpl_cls = self.loader.import_(name, is_fragment=True)
-        if alias is None:
-            alias = self.loader.default_alias_for(name)
         context = dict(gbls)
         context.update(self.__globals__)
         # Each template has its own helpers.
@@ -219,7 +218,13 @@ class _Template(object):
         for k in ('self', 'local', 'parent', 'child'):
             if isinstance(context.get(k), _Template):
                 del context[k]
-        r = gbls[alias] = self.__globals__[alias] = tpl_cls(context)
+        return tpl_cls(context)
+
+    def _import(self, name, alias, gbls):
+        r = self._include(name, gbls)
+        if alias is None:
+            alias = self.loader.default_alias_for(name)
+        gbls[alias] = self.__globals__[alias] = r
         return r
 
     def _escape(self, value):
-- 
2.43.0


From 7b704cbd2e00ebba68fc89c926baba1766bbbc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:04:19 +0000
Subject: [PATCH 24/40] fix: template functions that output nothing can be
 called

---
 kajiki/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/util.py b/kajiki/util.py
index 48c3fc0..85aa201 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -47,6 +47,8 @@ class flattener(object):
     def __init__(self, iterator):
         while type(iterator) == flattener:
             iterator = iterator.iterator
+        if iterator is None:  # a function without any output is no generator
+            iterator = ()
         self.iterator = iterator
 
     @classmethod
-- 
2.43.0


From 6cc8243b4aaf31f8c1cd20d83e123943eb7264ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:49 +0000
Subject: [PATCH 25/40] fix: keyword-only parameters of template functions keep
 their defaults

---
 kajiki/template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/template.py b/kajiki/template.py
index 298540c..b1d9e9f 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -400,6 +400,8 @@ class TplFunc(object):
             self._func.__defaults__,
             self._func.__closure__
         )
+        if not IS_PYTHON2:
+            func.__kwdefaults__ = self._func.__kwdefaults__
         return update_wrapper(
             lambda *a, **kw: flattener(func(*a, **kw)),
             func)
-- 
2.43.0


From bbe7a679726a89fabbe3fd8aa7e88e4f34ec172b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:30 +0000
Subject: [PATCH 26/40] fix: options given to load() take precedence over those
 of the loader

autoescape (text) and autoblocks (force_mode) given per call, or as
template options of the loader, raised TypeError instead.
---
 kajiki/loader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index b04a120..494f6c4 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -57,7 +57,8 @@ class FileLoader(Loader):
         self._template_options = template_options
         self.extension_map = dict(
             txt=lambda *a, **kw: TextTemplate(
-                autoescape=self._autoescape_text, *a, **kw),
+                autoescape=kw.pop('autoescape', self._autoescape_text),
+                *a, **kw),
             xml=XMLTemplate,
             html=lambda *a, **kw: XMLTemplate(mode='html', *a, **kw),
             html5=lambda *a, **kw: XMLTemplate(mode='html5', *a, **kw))
@@ -94,12 +95,12 @@ class FileLoader(Loader):
             raise IOError('Unknown template %r' % name)
         self._timestamps[name] = os.stat(filename).st_mtime
         if self._force_mode == 'text':
-            return TextTemplate(filename=filename,
-                autoescape=self._autoescape_text, *args, **options)
+            options.setdefault('autoescape', self._autoescape_text)
+            return TextTemplate(filename=filename, *args, **options)
         elif self._force_mode:
+            options.setdefault('autoblocks', self._xml_autoblocks)
             return XMLTemplate(filename=filename,
                                mode=self._force_mode,
-                               autoblocks=self._xml_autoblocks,
                                *args, **options)
         else:
             ext = os.path.splitext(filename)[1][1:]
-- 
2.43.0


From 73edb7c75a2a3cf86b77a20a7e8dff9d78256401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:38 +0000
Subject: [PATCH 27/40] fix: count the newlines between ${ and the expression

---
 kajiki/xml_template.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 76e8346..461ed9a 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -550,7 +550,9 @@ class _TextCompiler(object):
         def py_expr(end=None):
             return self.source[self.pos:end]
         try:
-            self.pos += len(py_expr()) - len(py_expr().lstrip())
+            blanks = py_expr()[:len(py_expr()) - len(py_expr().lstrip())]
+            self.pos += len(blanks)
+            self.lineno += blanks.count('\n')
             compile(py_expr(), 'find_}', 'eval')
         except SyntaxError as se:
             end = sum(
-- 
2.43.0


From eb7211273ae4c93b0050d80482cb169a1ae591da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:36 +0000
Subject: [PATCH 28/40] fix: line tables of templates with jumps of more than
 127 lines

Line increments are signed since Python 3.6: an expression more than 127
lines below the previous one was reported on a wrong, often negative, line.
---
 kajiki/lnotab.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/kajiki/lnotab.py b/kajiki/lnotab.py
index edffbd8..652df6c 100644
--- a/kajiki/lnotab.py
+++ b/kajiki/lnotab.py
@@ -49,6 +49,7 @@ expand 300, 300 to 255, 255, 45, 45,
 '''
 
 from __future__ import (absolute_import, division, print_function)
+from sys import version_info
 from nine import IS_PYTHON2
 
 if IS_PYTHON2:
@@ -61,6 +62,11 @@ else:
     def byte2int(b):
         return b
 
+# Line increments are signed since Python 3.6; up to 127 they are understood
+# by every version.
+MAX_LINE_INCREMENT = 127
+SIGNED_LINE_INCREMENTS = version_info >= (3, 6)
+
 
 def lnotab(pairs, first_lineno=0):
     """Yields byte integers representing the pairs of integers passed in."""
@@ -76,10 +82,10 @@ def lnotab(pairs, first_lineno=0):
             yield 0   # line
             byte_delta -= 255
         yield byte_delta
-        while line_delta > 255:
-            yield 255  # line
+        while line_delta > MAX_LINE_INCREMENT:
+            yield MAX_LINE_INCREMENT  # line
             yield 0   # byte
-            line_delta -= 255
+            line_delta -= MAX_LINE_INCREMENT
         yield line_delta
         cur_byte, cur_line = byte_off, line_off
 
@@ -104,6 +110,8 @@ def lnotab_numbers(lnotab, first_lineno=0):
                 yield cur_byte, cur_line
                 last_line = cur_line
             cur_byte += byte_delta
+        if SIGNED_LINE_INCREMENTS and line_delta > MAX_LINE_INCREMENT:
+            line_delta -= 256
         cur_line += line_delta
     if cur_line != last_line:
         yield cur_byte, cur_line
-- 
2.43.0


From 34227858aa879bdecb05d1217dcb4ccd6262846e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:25 +0000
Subject: [PATCH 29/40] fix: line tables count lines of multi-line expressions,
 and each function on its own

An expression spanning lines shifted the lines of everything after it and
printed 'ERROR LOOKING UP LINE'; lines of template functions were reported as
the last line of the template.
---
 kajiki/template.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index b1d9e9f..5f07410 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -339,11 +339,10 @@ def from_ir(ir_node, base_globals=None):
     py_lines = list(generate_python(ir_node))
     py_text = '\n'.join(map(str, py_lines))
     py_linenos = []
-    last_lineno = 0
-    for i, l in enumerate(py_lines):
-        lno = max(last_lineno, l._lineno or 0)
-        py_linenos.append((i + 1, lno))
-        last_lineno = lno
+    for l in py_lines:
+        # an expression may span several lines of the generated code
+        for _ in str(l).split('\n'):
+            py_linenos.append((len(py_linenos) + 1, l._lineno or 0))
     dct = dict(kajiki=kajiki)
     try:
         exec(py_text, dct)
@@ -410,17 +409,20 @@ class TplFunc(object):
         if not py_to_tpl:
             return
         code = self._func.__code__
+        new_firstlineno = py_to_tpl_dct.get(code.co_firstlineno, 0)
         new_lnotab_numbers = []
+        last_lineno = new_firstlineno
         for bc_off, py_lno in lnotab.lnotab_numbers(
                 code.co_lnotab, code.co_firstlineno):
             tpl_lno = py_to_tpl_dct.get(py_lno, None)
             if tpl_lno is None:
                 print('ERROR LOOKING UP LINE #%d' % py_lno)
                 continue
-            new_lnotab_numbers.append((bc_off, tpl_lno))
+            # The line table of a function never runs backwards.
+            last_lineno = max(last_lineno, tpl_lno)
+            new_lnotab_numbers.append((bc_off, last_lineno))
         if not new_lnotab_numbers:
             return
-        new_firstlineno = py_to_tpl_dct.get(code.co_firstlineno, 0)
         new_lnotab = lnotab.lnotab_string(new_lnotab_numbers, new_firstlineno)
         new_code = patch_code_file_lines(
             code, filename, new_firstlineno, new_lnotab)
-- 
2.43.0


From 320476837ee6d21defdf3eb41d833da4b38d0fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:28 +0000
Subject: [PATCH 30/40] fix: directives and text after a comment in front of
 the root element

Only the first node of the document was transformed, so with a comment before
the root element directive attributes were rendered as ordinary ones.
---
 kajiki/xml_template.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 461ed9a..a0594e8 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -772,7 +772,8 @@ class _DomTransformer(object):
         Any other node (including CDATA TextNodes) splits runs of TextNodes.
         """
         if isinstance(tree, dom.Document):
-            cls._merge_text_nodes(tree.firstChild)
+            for child in tree.childNodes:
+                cls._merge_text_nodes(child)
             return tree
         if not isinstance(getattr(tree, 'tagName', None), basestring):
             return tree
@@ -876,7 +877,8 @@ class _DomTransformer(object):
         receive the latter.
         """
         if isinstance(tree, dom.Document):
-            cls._expand_directives(tree.firstChild, tree)
+            for child in list(tree.childNodes):
+                cls._expand_directives(child, tree)
             return tree
         if not isinstance(getattr(tree, 'tagName', None), basestring):
             return tree
-- 
2.43.0


From c200ae2e5d7ab5bfb6f4e933324b285013ba4ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:22 +0000
Subject: [PATCH 31/40] fix: count the blank lines before a tag of a text
 template

---
 kajiki/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index f76495f..4bce91d 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -98,12 +98,14 @@ class _Scanner(object):
                 yield self.text('$')
             elif groups['tag_bare'] is not None:
                 self.pos = mo.end()
+                self.lineno += mo.group().count('\n')  # blank lines before it
                 yield self._get_tag_bare(groups['tag_bare'])
             elif groups['tag_begin'] is not None:
                 self.pos = mo.end()
                 yield self._get_tag(groups['tag_begin'])
             elif groups['tag_begin_ljust'] is not None:
                 self.pos = mo.end()
+                self.lineno += mo.group().count('\n')  # blank lines before it
                 yield self._get_tag(groups['tag_begin_ljust'])
             elif groups['tag_bare_invalid'] is not None:
                 continue
-- 
2.43.0


From 6c223b1b6b35606f35dff1de5e03a8f3a2bd0849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:36 +0000
Subject: [PATCH 32/40] fix: report a misplaced py:else inside another
 directive

It was only noticed below ordinary elements: inside a directive it became a
syntax error in the generated code, or the else clause of a py:for loop, and
as the root element an AttributeError.
---
 kajiki/xml_template.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index a0594e8..cb4aa1b 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -433,9 +433,14 @@ class _Compiler(object):
     @annotate
     def _compile_else(self, node):
         """Convert py:else nodes to their intermediate representation."""
-        if (getattr(node.parentNode, 'tagName', '') != 'py:nop' and
-                not node.parentNode.hasAttribute('py:switch') and
-                getattr(node.previousSibling, 'tagName', '') != 'py:if'):
+        parent, previous = node.parentNode, node.previousSibling
+        while getattr(parent, 'tagName', '') == 'py:nop':
+            parent = parent.parentNode
+        while (isinstance(previous, dom.Text) and not previous.data or
+               isinstance(previous, dom.Comment) and previous.data.startswith('!')):
+            previous = previous.previousSibling  # not rendered
+        if (getattr(parent, 'tagName', '') != 'py:switch' and
+                getattr(previous, 'tagName', '') != 'py:if'):
             raise XMLTemplateCompileError(
                 'py:else directive must be inside a py:switch or directly after py:if '
                 'without text or spaces in between',
-- 
2.43.0


From 113b3121417ddcf9458da82448f18f5ffda66949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:01 +0000
Subject: [PATCH 33/40] fix: a DOCTYPE inside a comment or CDATA section is
 text

It was taken for the DOCTYPE of the document and replaced by that of Kajiki.
---
 kajiki/doctype.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/kajiki/doctype.py b/kajiki/doctype.py
index 66833d6..631c090 100644
--- a/kajiki/doctype.py
+++ b/kajiki/doctype.py
@@ -79,6 +79,8 @@ class DocumentTypeDeclaration(object):
             return None
 
     REGEX = re.compile(r'<!DOCTYPE[^>]+>')  # This matches any DTD.
+    # What may stand before a DTD; in comments, CDATA etc. it is mere text.
+    PROLOG = re.compile(r'(?:\s|\ufeff|<!--.*?-->|<\?.*?\?>)*', re.DOTALL)
 
 
 # Build the public DTDs dictionary
@@ -125,7 +127,7 @@ for dtd in (
 def extract_dtd(markup):
     """Lookup the DTD in the provided markup code.
 
-    Tries to find any DTD in the string *markup* and returns a tuple
+    Tries to find the DTD at the start of the string *markup* and returns a tuple
     (dtd_string, position, markup_without_the_DTD). Note the first of
     these values might be an empty string::
 
@@ -145,8 +147,9 @@ def extract_dtd(markup):
         <!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN"
             "http://www.w3.org/TR/html4/loose.dtd">
     """
-    match = DocumentTypeDeclaration.REGEX.search(markup)
+    prolog = DocumentTypeDeclaration.PROLOG.match(markup)
+    match = DocumentTypeDeclaration.REGEX.match(markup, prolog.end())
     if not match:
         return '', 0, markup
     found = match.group()
-    return found, match.start(), markup.replace(found, '', 1)
+    return found, match.start(), markup[:match.start()] + markup[match.end():]
-- 
2.43.0


From b107c8f8a4c9a871e322948fb28b62f73279f8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:45 +0000
Subject: [PATCH 34/40] fix: {%- tags in the middle of a line of a text
 template

---
 kajiki/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 4bce91d..334009d 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -41,7 +41,7 @@ _pattern = r'''
     (?P<tag_bare>[a-z]+) | # %for, %end, etc.
     (?P<tag_bare_invalid>)
 )|
-^\s*{%-(?P<tag_begin_ljust>[a-z]+)|  # {%-for, {%-end, etc.
+(?:^\s*|[ \t]*){%-(?P<tag_begin_ljust>[a-z]+)|  # {%-for, {%-end, etc.
 {%(?:
     (?P<tag_begin>[a-z]+) | # {%for, {%end, etc.
     (?P<tag_begin_invalid>)
@@ -80,7 +80,7 @@ class _Scanner(object):
         source = self.source
         for mo in _re_pattern.finditer(source):
             start = mo.start()
-            if start < self.pos:
+            if mo.end() <= self.pos:
                 # part of the expression or tag that was just consumed
                 continue
             if start > self.pos:
-- 
2.43.0


From 2c0799a92423bd712bd321c25e92356b5118e6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:49 +0000
Subject: [PATCH 35/40] fix: one end closes a switch with an else branch in a
 text template

---
 kajiki/text.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 334009d..a84e180 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -259,7 +259,10 @@ class _Parser(object):
         return ir.ForNode(token.body, *body[:-1])
 
     def _parse_switch(self, token):
-        body = list(self._parse_body('end'))
+        body = list(self._parse_body('end', 'else'))
+        if body[-1] is not None and body[-1].tagname == 'else':
+            # the end of the else branch is that of the switch, too
+            body[-1:] = [self._parse_else(body[-1]), None]
         return ir.SwitchNode(token.body, *body[:-1])
 
     def _parse_case(self, token):
-- 
2.43.0


From 91e66a64947095032d93c478c60ce141ea7fc75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:45 +0000
Subject: [PATCH 36/40] fix: an if with an else branch inside another tag of a
 text template

---
 kajiki/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index a84e180..c8276ab 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -251,6 +251,7 @@ class _Parser(object):
         body = list(self._parse_body('end', 'else'))
         stoptok = body[-1]
         if stoptok.tagname == 'else':
+            stoptok.tagname = 'if_else'  # not the else of an enclosing tag
             self.push_tok(stoptok)
         return ir.IfNode(token.body, *body[:-1])
 
@@ -274,6 +275,7 @@ class _Parser(object):
     def _parse_else(self, token):
         body = list(self._parse_body('end'))
         return ir.ElseNode(*body[:-1])
+    _parse_if_else = _parse_else
 
     def _parse_extends(self, token):
         parts = shlex_split(token.body)
-- 
2.43.0


From efc226cf5a906ad4816acd4a4e57240495ecbc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:11 +0000
Subject: [PATCH 37/40] fix: expressions with commas in text, py:switch,
 py:case and py:attrs

---
 kajiki/ir.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 14614c1..623894d 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -35,6 +35,11 @@ class Node(object):
         return PyLine(self.filename, self.lineno, text)
 
 
+def operand(expr):
+    '''Returns the expression such that its commas do not separate arguments.'''
+    return '(%s)' % expr if expr.strip() else expr
+
+
 class PassNode(Node):
     def py(self):
         # 'pass' would result in: TypeError: 'NoneType' object is not iterable
@@ -247,7 +252,7 @@ class SwitchNode(HierNode):
         self.decl = decl
 
     def py(self):
-        yield self.line('local.__kj__.push_switch(%s)' % self.decl)
+        yield self.line('local.__kj__.push_switch(%s)' % operand(self.decl))
         yield self.line('if False: pass')
 
     def __iter__(self):
@@ -263,7 +268,7 @@ class CaseNode(HierNode):
         self.decl = decl
 
     def py(self):
-        yield self.line('elif local.__kj__.case(%s):' % self.decl)
+        yield self.line('elif local.__kj__.case(%s):' % operand(self.decl))
 
 
 class IfNode(HierNode):
@@ -322,9 +327,10 @@ class ExprNode(Node):
 
     def py(self):
         if self.safe:
-            yield self.line('yield %s' % self.text)
+            yield self.line('yield %s' % operand(self.text))
         else:
-            yield self.line('yield self.__kj__.escape(%s)' % self.text)
+            yield self.line(
+                'yield self.__kj__.escape(%s)' % operand(self.text))
 
 
 class AttrNode(HierNode):
@@ -385,7 +391,7 @@ class AttrsNode(Node):
         def _body():
             yield self.line(
                 'for %s in self.__kj__.render_attrs(%s, %r):' % (
-                    x, self.attrs, self.mode))
+                    x, operand(self.attrs), self.mode))
             yield self.line('    yield %s' % x)
         if self.guard:
             yield self.line('if %s:' % self.guard)
-- 
2.43.0


From 234c7bf83c3d7809dddf9b821a0e73b49d5528cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:07 +0000
Subject: [PATCH 38/40] fix: unescape leaves numeric references beyond any
 character alone

---
 kajiki/entities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/entities.py b/kajiki/entities.py
index c20ab5f..c0d5972 100644
--- a/kajiki/entities.py
+++ b/kajiki/entities.py
@@ -29,7 +29,7 @@ def _replace_entities(s):
             else:
                 c = int(s.rstrip(';'))
             return chr(c)
-    except ValueError:
+    except (ValueError, OverflowError):
         return '&#' + s
     else:
         if s in html5:
-- 
2.43.0


From c979025e869f2ceca3b49158ab5cf9480e1cd163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:56 +0000
Subject: [PATCH 39/40] fix: braced expressions over several lines with other
 line ends than a newline

---
 kajiki/text.py         | 5 +++--
 kajiki/util.py         | 8 ++++++++
 kajiki/xml_template.py | 5 +++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index c8276ab..478b3f4 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -29,6 +29,7 @@ del version_info
 
 import kajiki
 from . import ir
+from .util import python_lines
 
 _pattern = r'''
 \$(?:
@@ -163,8 +164,8 @@ class _Scanner(object):
         try:
             compile(self.source[self.pos:], '', 'eval')
         except SyntaxError as se:
-            end = self.pos + sum([se.offset] + [len(line) + 1
-                                                for idx, line in enumerate(self.source[self.pos:].splitlines())
+            end = self.pos + sum([se.offset] + [len(line)
+                                                for idx, line in enumerate(python_lines(self.source[self.pos:]))
                                                 if idx < se.lineno - 1])
             text = self.source[self.pos:end - 1]
             self.pos = end
diff --git a/kajiki/util.py b/kajiki/util.py
index 85aa201..de0a39d 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -3,6 +3,7 @@
 from __future__ import (absolute_import, division, print_function,
                         unicode_literals)
 from collections import deque
+import re
 import sys
 from random import randint
 from threading import local
@@ -114,6 +115,13 @@ def gen_name(hint='_kj_'):
     return NameGen.gen(hint)
 
 
+def python_lines(text):
+    '''Returns the lines of Python source with their ends, as compile() counts
+    them; str.splitlines() also splits at other characters.
+    '''
+    return re.findall(r'[^\r\n]*(?:\r\n?|\n)|[^\r\n]+$', text)
+
+
 def window(seq, n=2):
     """Return a sliding window of size ``n`` over an iterator"""
     l = deque((next(seq, None) for _ in range(n)), maxlen=n)
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index cb4aa1b..58967a1 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -23,6 +23,7 @@ from .entities import html5
 from .html_utils import (HTML_OPTIONAL_END_TAGS, HTML_REQUIRED_END_TAGS,
                          HTML_CDATA_TAGS)
 from .markup_template import QDIRECTIVES, QDIRECTIVES_DICT
+from .util import python_lines
 
 impl = dom.getDOMImplementation(' ')
 
@@ -562,8 +563,8 @@ class _TextCompiler(object):
         except SyntaxError as se:
             end = sum(
                 [self.pos, se.offset] +
-                [len(line) + 1
-                 for idx, line in enumerate(py_expr().splitlines())
+                [len(line)
+                 for idx, line in enumerate(python_lines(py_expr()))
                  if idx < se.lineno - 1]
             )
             if py_expr(end)[-1:] != '}':
-- 
2.43.0


From cabca99c4610f3986d6c12118902331bb29ca763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:22 +0000
Subject: [PATCH 40/40] fix: tags of text templates with CRLF line ends

---
 kajiki/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 478b3f4..e417ecc 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -350,7 +350,7 @@ class _Text(_Token):
 class _Tag(_Token):
     def __init__(self, filename, lineno, tagname, body):
         self.tagname = tagname
-        self.body = body
+        self.body = body.strip()  # such as the CR of a CRLF line end
         text = tagname + ' ' + body
         super(_Tag, self).__init__(filename, lineno, text)
 
-- 
2.43.0

