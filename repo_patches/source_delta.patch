From d1c61ed69dc959a34fe41b79cde31f2242b4b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:33 +0000
Subject: [PATCH 01/34] fix: a "$" inside a ${...} expression or a tag is not
 scanned a second time

---
 kajiki/text.py         | 2 ++
 kajiki/xml_template.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index 1cbe583..e544c19 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -78,6 +78,8 @@ class _Scanner(object):
         source = self.source
         for mo in _re_pattern.finditer(source):
             start = mo.start()
+            if start < self.pos:
+                continue  # Part of the expression or tag just consumed
             if start > self.pos:
                 yield self.text(source[self.pos:start])
                 self.pos = start
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 8615804..3cb420b 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -513,6 +513,8 @@ class _TextCompiler(object):
         source = self.source
         for mo in self._re_pattern.finditer(source):
             start = mo.start()
+            if start < self.pos:
+                continue  # A "$" inside the braced expression just consumed
             if start > self.pos:
                 yield self.text(source[self.pos:start])
             self.pos = start
-- 
2.43.0


From bdf953f2104e297644ab77f5fb23d32d86fc08d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:33 +0000
Subject: [PATCH 02/34] fix: text templates can end right after a "-%}"
 delimiter

---
 kajiki/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index e544c19..6f4ef59 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -150,7 +150,7 @@ class _Scanner(object):
         self.pos = end + 2
         if body.endswith('-'):
             body = body[:-1]
-            while self.source[self.pos] in ' \t':
+            while self.source[self.pos:self.pos + 1] in (' ', '\t'):
                 self.pos += 1
         return self.tag(tagname, body)
 
-- 
2.43.0


From 0f5c7b905c6d68cd48c4069fceaf632903946bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:33 +0000
Subject: [PATCH 03/34] fix: text ending in a backslash no longer crashes text
 templates

---
 kajiki/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 6f4ef59..107dc39 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -347,7 +347,7 @@ class _Tag(_Token):
 def _unescape_newlines(text):
     i = 0
     while i < len(text):
-        if text[i] == '\\':
+        if text[i] == '\\' and i + 1 < len(text):
             if text[i + 1] != '\n':
                 yield text[i + 1]
             i += 2
-- 
2.43.0


From b1f73b9a2a3f0352d7cd6aef91a55d9b2d1644e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:33 +0000
Subject: [PATCH 04/34] fix: template function results and literals as py:attrs
 values render their text

---
 kajiki/template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/template.py b/kajiki/template.py
index 29f7555..7e4b183 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -238,6 +238,8 @@ class _Template(object):
             for k, v in sorted(attrs):
                 if k in HTML_EMPTY_ATTRS and v in (True, False):
                     v = k if v else None
+                if isinstance(v, flattener):
+                    v = self._collect(v)
                 if v is None:
                     continue
                 if mode.startswith('html') and k in HTML_EMPTY_ATTRS:
-- 
2.43.0


From 4e7efbb0a66866bb3f77a57fbd24b58b7d5c0014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:04 +0000
Subject: [PATCH 05/34] fix: empty py:if, py:else, py:for, py:case and py:call
 bodies compile

---
 kajiki/ir.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 9163723..83e7bf5 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -55,8 +55,12 @@ class HierNode(Node):
     def __iter__(self):
         yield self
         yield IndentNode()
+        is_empty = True
         for x in self.body_iter():
             yield x
+            is_empty = False
+        if is_empty:  # In Python, a block without a body is a SyntaxError.
+            yield PassNode()
         yield DedentNode()
 
 
@@ -185,8 +189,12 @@ class CallNode(HierNode):
     def __iter__(self):
         yield self
         yield IndentNode()
+        is_empty = True
         for x in self.body_iter():
             yield x
+            is_empty = False
+        if is_empty:
+            yield PassNode()
         yield DedentNode()
         yield self.CallTail(self.call)
 
-- 
2.43.0


From db37c0181f5beee2f63fcab2d5579681821ac0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:39 +0000
Subject: [PATCH 06/34] fix: template line numbers survive gaps of more than
 127 lines

Since Python 3.6 co_lnotab line increments are signed bytes, so larger
increments must be split into steps of at most 127.
---
 kajiki/lnotab.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/kajiki/lnotab.py b/kajiki/lnotab.py
index edffbd8..9531957 100644
--- a/kajiki/lnotab.py
+++ b/kajiki/lnotab.py
@@ -49,6 +49,7 @@ expand 300, 300 to 255, 255, 45, 45,
 '''
 
 from __future__ import (absolute_import, division, print_function)
+from sys import version_info
 from nine import IS_PYTHON2
 
 if IS_PYTHON2:
@@ -62,6 +63,10 @@ else:
         return b
 
 
+# Since Python 3.6 the line increments are signed bytes.
+MAX_LINE_DELTA = 127 if version_info >= (3, 6) else 255
+
+
 def lnotab(pairs, first_lineno=0):
     """Yields byte integers representing the pairs of integers passed in."""
     assert first_lineno <= pairs[0][1]
@@ -76,10 +81,10 @@ def lnotab(pairs, first_lineno=0):
             yield 0   # line
             byte_delta -= 255
         yield byte_delta
-        while line_delta > 255:
-            yield 255  # line
+        while line_delta > MAX_LINE_DELTA:
+            yield MAX_LINE_DELTA  # line
             yield 0   # byte
-            line_delta -= 255
+            line_delta -= MAX_LINE_DELTA
         yield line_delta
         cur_byte, cur_line = byte_off, line_off
 
@@ -104,6 +109,8 @@ def lnotab_numbers(lnotab, first_lineno=0):
                 yield cur_byte, cur_line
                 last_line = cur_line
             cur_byte += byte_delta
+        if line_delta > MAX_LINE_DELTA:
+            line_delta -= 256
         cur_line += line_delta
     if cur_line != last_line:
         yield cur_byte, cur_line
-- 
2.43.0


From f20cd5169d13611cb77c37bdcfbbc301b3d77c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:30 +0000
Subject: [PATCH 07/34] fix: expressions spanning several lines do not shift
 later template line numbers

---
 kajiki/template.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 7e4b183..ae11374 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -316,9 +316,11 @@ def from_ir(ir_node, base_globals=None):
     py_text = '\n'.join(map(str, py_lines))
     py_linenos = []
     last_lineno = 0
-    for i, l in enumerate(py_lines):
+    for l in py_lines:
         lno = max(last_lineno, l._lineno or 0)
-        py_linenos.append((i + 1, lno))
+        # An expression may span many lines of the generated code
+        for _ in str(l).split('\n'):
+            py_linenos.append((len(py_linenos) + 1, lno))
         last_lineno = lno
     dct = dict(kajiki=kajiki)
     try:
-- 
2.43.0


From 07f0115d3d3daae8454ae0b4a21a4b6d6e8fd3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:49 +0000
Subject: [PATCH 08/34] fix: errors in functions generated after later template
 lines report their own line

---
 kajiki/template.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/template.py b/kajiki/template.py
index ae11374..6f420dc 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -317,6 +317,8 @@ def from_ir(ir_node, base_globals=None):
     py_linenos = []
     last_lineno = 0
     for l in py_lines:
+        if l._indent <= 4:  # Functions are not generated in source order
+            last_lineno = 0
         lno = max(last_lineno, l._lineno or 0)
         # An expression may span many lines of the generated code
         for _ in str(l).split('\n'):
-- 
2.43.0


From 46a0284ab939ed4f403c96090e59f271b1161553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:33 +0000
Subject: [PATCH 09/34] fix: text template tags report their own line, blank
 lines before a tag are counted

---
 kajiki/text.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 107dc39..f18f4fa 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -84,6 +84,8 @@ class _Scanner(object):
                 yield self.text(source[self.pos:start])
                 self.pos = start
             groups = mo.groupdict()
+            if groups['tag_bare'] or groups['tag_begin_ljust']:
+                self.lineno += mo.group().count('\n')  # Blank lines skipped
             if groups['expr_braced'] is not None:
                 self.pos = mo.end()
                 yield self._get_braced_expr()
@@ -139,9 +141,10 @@ class _Scanner(object):
         if end == -1:
             end = len(self.source)
         body = self.source[self.pos:end]
-        self.lineno += 1
         self.pos = end + 1
-        return self.tag(tagname, body)
+        tag = self.tag(tagname, body)
+        self.lineno += 1
+        return tag
 
     def _get_tag(self, tagname):
         end = self.source.find('%}', self.pos)
@@ -212,7 +215,11 @@ class _Parser(object):
                         yield token
                         break
                     parser = getattr(self, '_parse_%s' % token.tagname)
-                    yield parser(token)
+                    node = parser(token)
+                    if node is not None and not node.lineno:
+                        node.filename = token.filename
+                        node.lineno = token.lineno
+                    yield node
                 else:
                     msg = 'Parse error: %r unexpected' % token
                     assert False, msg
-- 
2.43.0


From 4f7532a487cc315f72751f97d0d06bdcf128dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:48 +0000
Subject: [PATCH 10/34] fix: functions nested in template functions report
 template lines too

---
 kajiki/template.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 6f420dc..c6172d6 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -387,7 +387,11 @@ class TplFunc(object):
     def annotate_lnotab(self, filename, py_to_tpl, py_to_tpl_dct):
         if not py_to_tpl:
             return
-        code = self._func.__code__
+        self._func.__code__ = self._annotate_code(
+            self._func.__code__, filename, py_to_tpl_dct)
+
+    @classmethod
+    def _annotate_code(cls, code, filename, py_to_tpl_dct):
         new_lnotab_numbers = []
         for bc_off, py_lno in lnotab.lnotab_numbers(
                 code.co_lnotab, code.co_firstlineno):
@@ -397,23 +401,26 @@ class TplFunc(object):
                 continue
             new_lnotab_numbers.append((bc_off, tpl_lno))
         if not new_lnotab_numbers:
-            return
+            return code
         new_firstlineno = py_to_tpl_dct.get(code.co_firstlineno, 0)
         new_lnotab = lnotab.lnotab_string(new_lnotab_numbers, new_firstlineno)
         new_code = patch_code_file_lines(
-            code, filename, new_firstlineno, new_lnotab)
-        self._func.__code__ = new_code
-        return
+            code, filename, new_firstlineno, new_lnotab,
+            # Functions nested in this one (py:call, attribute values...)
+            tuple(cls._annotate_code(c, filename, py_to_tpl_dct)
+                  if isinstance(c, types.CodeType) else c
+                  for c in code.co_consts))
+        return new_code
 
 
 if IS_PYTHON2:
-    def patch_code_file_lines(code, filename, firstlineno, lnotab):
+    def patch_code_file_lines(code, filename, firstlineno, lnotab, consts):
         return types.CodeType(code.co_argcount,
                               code.co_nlocals,
                               code.co_stacksize,
                               code.co_flags,
                               code.co_code,
-                              code.co_consts,
+                              consts,
                               code.co_names,
                               code.co_varnames,
                               filename.encode('utf-8'),
@@ -423,7 +430,7 @@ if IS_PYTHON2:
                               code.co_freevars,
                               code.co_cellvars)
 else:
-    def patch_code_file_lines(code, filename, firstlineno, lnotab):
+    def patch_code_file_lines(code, filename, firstlineno, lnotab, consts):
         code_args = [code.co_argcount]
         if version_info >= (3, 8):
             code_args.append(code.co_posonlyargcount)
@@ -433,7 +440,7 @@ else:
             code.co_stacksize,
             code.co_flags,
             code.co_code,
-            code.co_consts,
+            consts,
             code.co_names,
             code.co_varnames,
             filename,
-- 
2.43.0


From da746e33814f963ea81b9e4a75eab49fcecfd2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:19 +0000
Subject: [PATCH 11/34] fix: a DOCTYPE spanning several lines does not shift
 template line numbers

---
 kajiki/xml_template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 3cb420b..f976100 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -605,7 +605,8 @@ class _Parser(sax.ContentHandler):
         # Store the original DTD in the document for the compiler to use later
         self._doc._dtd, position, source = extract_dtd(source)
         # Use our own DTD just for XML parsing
-        self._source = source[:position] + self.DTD + source[position:]
+        self._source = source[:position] + self.DTD + \
+            '\n' * self._doc._dtd.count('\n') + source[position:]
         self._cdata_stack = []
 
     def parse(self):
-- 
2.43.0


From 3c017a7357a204e6afcfc14d5cd255d35a89c042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:19 +0000
Subject: [PATCH 12/34] fix: leaving py:with restores a variable that came from
 the context

---
 kajiki/template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index c6172d6..8617895 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -117,7 +117,8 @@ class _Template(object):
         pushed on top of a stack by :class:`kajiki.ir.WithNode` so that
         when the node is exited the previous values can be recovered.
         """
-        self._with_stack.append([locals_.get(k, ()) for k in vars])
+        self._with_stack.append(
+            [locals_.get(k, self.__globals__.get(k, ())) for k in vars])
 
     def _pop_with(self):
         """Exists a ``py:with`` block.
-- 
2.43.0


From 5c3df6b4d48b4c41c69d8ca4ad04f48084843e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:07 +0000
Subject: [PATCH 13/34] fix: template functions that only contain code render
 as nothing

---
 kajiki/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kajiki/util.py b/kajiki/util.py
index bf91401..6a5e830 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -44,6 +44,8 @@ UNDEFINED = Undefined()
 
 class flattener(object):
     def __init__(self, iterator):
+        if iterator is None:  # A template function without any output
+            iterator = iter(())
         while type(iterator) == flattener:
             iterator = iterator.iterator
         self.iterator = iterator
-- 
2.43.0


From ca79a657991a08a25669ace48797d6ae72d57c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:19 +0000
Subject: [PATCH 14/34] fix: {%else%} in a text template {%switch%} no longer
 swallows what follows the switch

---
 kajiki/text.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index f18f4fa..d75db20 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -261,7 +261,11 @@ class _Parser(object):
         return ir.ForNode(token.body, *body[:-1])
 
     def _parse_switch(self, token):
-        body = list(self._parse_body('end'))
+        body = list(self._parse_body('end', 'else'))
+        stoptok = body[-1]
+        if stoptok is not None and stoptok.tagname == 'else':
+            # This consumes the "end" tag of the switch, too
+            body.insert(-1, self._parse_else(stoptok))
         return ir.SwitchNode(token.body, *body[:-1])
 
     def _parse_case(self, token):
-- 
2.43.0


From 4173cff92cb904be7aab2b4d4878e8a21bf10001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:51 +0000
Subject: [PATCH 15/34] fix: {%if%}...{%else%} can be nested in another {%if%}
 or {%case%} of a text template

---
 kajiki/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kajiki/text.py b/kajiki/text.py
index d75db20..a183664 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -253,6 +253,8 @@ class _Parser(object):
         body = list(self._parse_body('end', 'else'))
         stoptok = body[-1]
         if stoptok.tagname == 'else':
+            # Not to be taken for the "else" of an enclosing tag
+            stoptok.tagname = 'if_else'
             self.push_tok(stoptok)
         return ir.IfNode(token.body, *body[:-1])
 
@@ -278,6 +280,8 @@ class _Parser(object):
         body = list(self._parse_body('end'))
         return ir.ElseNode(*body[:-1])
 
+    _parse_if_else = _parse_else
+
     def _parse_extends(self, token):
         parts = shlex_split(token.body)
         fn = parts[0]
-- 
2.43.0


From 21fe05156e0c28e300a4064160cb99a9b1de2274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:37 +0000
Subject: [PATCH 16/34] fix: functions of a grandparent template are visible to
 every template extending it

---
 kajiki/template.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 8617895..753acf6 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -59,6 +59,7 @@ class _Template(object):
     loader = None
     base_globals = None
     filename = None
+    _child = None  # The template instance that extends this one, if any
 
     def __init__(self, context=None):
         if context is None:
@@ -152,16 +153,8 @@ class _Template(object):
                 continue
             if not isinstance(v, TplFunc):
                 continue
-            if k not in self.__globals__:
-                self.__globals__[k] = v
-            if not hasattr(self, k):
-                def _(k=k):
-                    '''Capture the 'k' variable in a closure'''
-                    def trampoline(*a, **kw):
-                        global parent
-                        return getattr(parent, k)(*a, **kw)
-                    return trampoline
-                setattr(self, k, TplFunc(_()).bind_instance(self))
+            self._inherit(k, v)
+        p_inst._child = self
         p_globals['child'] = self
         p_globals['local'] = p_inst
         p_globals['self'] = self.__globals__['self']
@@ -169,6 +162,23 @@ class _Template(object):
         self.__globals__['local'] = self
         return p_inst
 
+    def _inherit(self, k, v):
+        """Make the template function *v* of an ancestor available as *k* here
+        and in the templates that extend this one.
+        """
+        if k not in self.__globals__:
+            self.__globals__[k] = v
+        if not hasattr(self, k):
+            def _(k=k):
+                '''Capture the 'k' variable in a closure'''
+                def trampoline(*a, **kw):
+                    global parent
+                    return getattr(parent, k)(*a, **kw)
+                return trampoline
+            setattr(self, k, TplFunc(_()).bind_instance(self))
+        if self._child is not None:
+            self._child._inherit(k, v)
+
     def _push_switch(self, expr):
         """Enter a ``py:switch`` block.
 
-- 
2.43.0


From e641e9f2055019583dede90cdaeacfa3dc0e68a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:01 +0000
Subject: [PATCH 17/34] fix: template functions yielding non-strings can be
 used in attributes

flattener.accumulate_str concatenated the chunks without converting them,
so a text template function yielding e.g. an int raised TypeError when
its result was part of an XML attribute.
---
 kajiki/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/util.py b/kajiki/util.py
index 6a5e830..19f39dd 100644
--- a/kajiki/util.py
+++ b/kajiki/util.py
@@ -72,7 +72,7 @@ class flattener(object):
             elif x is None:
                 pass
             else:
-                s += x
+                s += '%s' % (x,)  # Not always a string
         return s
 
     def __iter__(self):
-- 
2.43.0


From b78d406175229fca038471efb34c495ad8b981f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:13 +0000
Subject: [PATCH 18/34] fix: imported and included templates keep their own
 functions, self and local

A template was instantiated with the globals of the one that imports it as
its context, so functions and blocks of the importing template replaced the
ones of the same name in the imported template and in its parents.
---
 kajiki/template.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 753acf6..58b3067 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -91,9 +91,19 @@ class _Template(object):
         self._switch_stack = []
         self._with_stack = []
         self.__globals__.update(context)
+        for k, _ in self.__methods__:
+            if self._is_foreign(k):
+                self.__globals__[k] = getattr(self, k)
         self.__globals__['_'] = self.__globals__['gettext']
         self.__globals__['value_of'] = self.__globals__.get
 
+    def _is_foreign(self, k):
+        """Check if *k* is a function of the template that imports this one,
+        which must not replace a function of this template or its parents.
+        """
+        v = self.__globals__.get(k)
+        return isinstance(v, TplFunc) and self._context.get(k) is v
+
     def __iter__(self):
         """We convert the chunk to string because it can be of any type
         -- after all, the template supports expressions such as ${x+y}.
@@ -144,7 +154,7 @@ class _Template(object):
         for k, v in iteritems(self.__globals__):
             if k == '__main__':
                 continue
-            if not isinstance(v, TplFunc):
+            if not isinstance(v, TplFunc) or self._is_foreign(k):
                 continue
             p_globals[k] = v
         # Find inherited funcs
@@ -166,7 +176,7 @@ class _Template(object):
         """Make the template function *v* of an ancestor available as *k* here
         and in the templates that extend this one.
         """
-        if k not in self.__globals__:
+        if k not in self.__globals__ or self._is_foreign(k):
             self.__globals__[k] = v
         if not hasattr(self, k):
             def _(k=k):
@@ -213,6 +223,7 @@ class _Template(object):
         if alias is None:
             alias = self.loader.default_alias_for(name)
         r = gbls[alias] = tpl_cls(gbls)
+        r.__globals__['local'] = r.__globals__['self'] = r
         return r
 
     def _escape(self, value):
-- 
2.43.0


From b6342bc0b849c07de5f17c774a77bb468744c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:01 +0000
Subject: [PATCH 19/34] fix: FileLoader can load and include text templates
 despite XML options

Including or importing a text template always passes is_fragment, and options
such as strip_text reached TextTemplate(), which raised TypeError.
---
 kajiki/loader.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index b120fa2..bd81e74 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -44,7 +44,7 @@ class FileLoader(Loader):
                  autoescape_text=False, xml_autoblocks=None,
                  **template_options):
         super(FileLoader, self).__init__()
-        from kajiki import XMLTemplate, TextTemplate
+        from kajiki import XMLTemplate
         if isinstance(path, basestring):
             self.path = path.split(';')
         else:
@@ -56,8 +56,7 @@ class FileLoader(Loader):
         self._xml_autoblocks = xml_autoblocks
         self._template_options = template_options
         self.extension_map = dict(
-            txt=lambda *a, **kw: TextTemplate(
-                autoescape=self._autoescape_text, *a, **kw),
+            txt=self._text_template,
             xml=XMLTemplate,
             html=lambda *a, **kw: XMLTemplate(mode='html', *a, **kw),
             html5=lambda *a, **kw: XMLTemplate(mode='html5', *a, **kw))
@@ -82,7 +81,7 @@ class FileLoader(Loader):
         binary mode. Thus, the ``encoding`` argument is only used for reading
         text template files.
         '''
-        from kajiki import XMLTemplate, TextTemplate
+        from kajiki import XMLTemplate
         options = self._template_options.copy()
         options.update(kwargs)
 
@@ -91,8 +90,7 @@ class FileLoader(Loader):
             raise IOError('Unknown template %r' % name)
         self._timestamps[name] = os.stat(filename).st_mtime
         if self._force_mode == 'text':
-            return TextTemplate(filename=filename,
-                autoescape=self._autoescape_text, *args, **options)
+            return self._text_template(filename=filename, *args, **options)
         elif self._force_mode:
             return XMLTemplate(filename=filename,
                                mode=self._force_mode,
@@ -103,6 +101,14 @@ class FileLoader(Loader):
             return self.extension_map[ext](
                 source=None, filename=filename, *args, **options)
 
+    def _text_template(self, *args, **options):
+        from kajiki import TextTemplate
+        for k in ('is_fragment', 'autoblocks', 'cdata_scripts', 'strip_text',
+                  'base_globals'):  # Only meaningful for XML templates
+            options.pop(k, None)
+        return TextTemplate(
+            autoescape=self._autoescape_text, *args, **options)
+
 
 class PackageLoader(FileLoader):
     def __init__(self, reload=True, force_mode=None):
-- 
2.43.0


From e4a41917d3d20ec326c0f0c861d4cc8fa612c959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:21 +0000
Subject: [PATCH 20/34] fix: the xml_autoblocks option of FileLoader works
 without force_mode

---
 kajiki/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index bd81e74..98352f1 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -83,6 +83,8 @@ class FileLoader(Loader):
         '''
         from kajiki import XMLTemplate
         options = self._template_options.copy()
+        if self._xml_autoblocks:
+            options.setdefault('autoblocks', self._xml_autoblocks)
         options.update(kwargs)
 
         filename = self._filename(name)
@@ -94,7 +96,6 @@ class FileLoader(Loader):
         elif self._force_mode:
             return XMLTemplate(filename=filename,
                                mode=self._force_mode,
-                               autoblocks=self._xml_autoblocks,
                                *args, **options)
         else:
             ext = os.path.splitext(filename)[1][1:]
-- 
2.43.0


From 13a00ac287e30b43ba3f3fb5244631d11eeb220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:48 +0000
Subject: [PATCH 21/34] fix: "${" without anything after it is a compile error,
 not an IndexError

---
 kajiki/xml_template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index f976100..f81cab0 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -551,7 +551,7 @@ class _TextCompiler(object):
                  for idx, line in enumerate(py_expr().splitlines())
                  if idx < se.lineno - 1]
             )
-            if py_expr(end)[-1] != '}':
+            if not py_expr(end).endswith('}'):
                 # for example unclosed strings
                 raise XMLTemplateCompileError(
                     "Kajiki can't compile the python expression `%s`" % py_expr()[:-1],
-- 
2.43.0


From 72711f88026ffb51906808b43bad7611d4941269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:03 +0000
Subject: [PATCH 22/34] fix: directives and text are processed in templates
 that start with a comment

Only the first child of the document was transformed, so with a comment
before the root element no directive attribute had any effect.
---
 kajiki/xml_template.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index f81cab0..faa4725 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -763,7 +763,8 @@ class _DomTransformer(object):
         Any other node (including CDATA TextNodes) splits runs of TextNodes.
         """
         if isinstance(tree, dom.Document):
-            cls._merge_text_nodes(tree.firstChild)
+            for child in list(tree.childNodes):
+                cls._merge_text_nodes(child)
             return tree
         if not isinstance(getattr(tree, 'tagName', None), basestring):
             return tree
@@ -867,7 +868,8 @@ class _DomTransformer(object):
         receive the latter.
         """
         if isinstance(tree, dom.Document):
-            cls._expand_directives(tree.firstChild, tree)
+            for child in list(tree.childNodes):
+                cls._expand_directives(child, tree)
             return tree
         if not isinstance(getattr(tree, 'tagName', None), basestring):
             return tree
-- 
2.43.0


From bc59830e562153613511a61e3b970b0955b7138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:05 +0000
Subject: [PATCH 23/34] fix: CDATA delimiters inside a directive are not
 translatable text

---
 kajiki/xml_template.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index faa4725..10892cc 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -374,6 +374,10 @@ class _Compiler(object):
     @annotate
     def _compile_text(self, node):
         """Compile text nodes to their intermediate representation"""
+        if getattr(node, '_cdata', False):
+            # The delimiters of a CDATA section are not text to translate.
+            yield ir.TextNode(node.data)
+            return
         kwargs = {}
         if node.parentNode and node.parentNode.tagName in HTML_CDATA_TAGS:
             # script and style should always be untranslatable.
-- 
2.43.0


From 02cd4f81c8701db41fed0dfec3e1f6a9c994c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:35 +0000
Subject: [PATCH 24/34] fix: templates imported by a parent template can be
 used by it

---
 kajiki/template.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kajiki/template.py b/kajiki/template.py
index 58b3067..08d8407 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -222,7 +222,8 @@ class _Template(object):
         tpl_cls = self.loader.import_(name, is_fragment=True)
         if alias is None:
             alias = self.loader.default_alias_for(name)
-        r = gbls[alias] = tpl_cls(gbls)
+        # *gbls* belong to the most derived template, which may not be this one.
+        r = gbls[alias] = self.__globals__[alias] = tpl_cls(gbls)
         r.__globals__['local'] = r.__globals__['self'] = r
         return r
 
-- 
2.43.0


From f187af1001c90eee4f2bd9aa0e3779ba755e073e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:34 +0000
Subject: [PATCH 25/34] fix: the end of a braced expression is found whatever
 line separators it contains

---
 kajiki/ir.py           | 8 ++++++++
 kajiki/template.py     | 4 ++--
 kajiki/text.py         | 4 ++--
 kajiki/xml_template.py | 4 ++--
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 83e7bf5..4bdebf2 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -20,6 +20,14 @@ def generate_python(ir):
             yield line.indent(cur_indent)
 
 
+def source_lines(text):
+    """Split *text* where Python sees the end of a line, and only there
+    (unlike ``splitlines()``), keeping the line ends.
+    """
+    lines = re.findall(r'[^\r\n]*(?:\r\n?|\n)', text)
+    return lines + [text[sum(map(len, lines)):]]
+
+
 class Node(object):
     def __init__(self):
         self.filename = '<string>'
diff --git a/kajiki/template.py b/kajiki/template.py
index 08d8407..381a1e3 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -22,7 +22,7 @@ except:
 import kajiki
 from .util import flattener, literal
 from .html_utils import HTML_EMPTY_ATTRS
-from .ir import generate_python
+from .ir import generate_python, source_lines
 from . import lnotab
 from kajiki import i18n
 
@@ -344,7 +344,7 @@ def from_ir(ir_node, base_globals=None):
             last_lineno = 0
         lno = max(last_lineno, l._lineno or 0)
         # An expression may span many lines of the generated code
-        for _ in str(l).split('\n'):
+        for _ in source_lines(str(l)):
             py_linenos.append((len(py_linenos) + 1, lno))
         last_lineno = lno
     dct = dict(kajiki=kajiki)
diff --git a/kajiki/text.py b/kajiki/text.py
index a183664..90ec1d1 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -161,8 +161,8 @@ class _Scanner(object):
         try:
             compile(self.source[self.pos:], '', 'eval')
         except SyntaxError as se:
-            end = self.pos + sum([se.offset] + [len(line) + 1
-                                                for idx, line in enumerate(self.source[self.pos:].splitlines())
+            end = self.pos + sum([se.offset] + [len(line)
+                                                for idx, line in enumerate(ir.source_lines(self.source[self.pos:]))
                                                 if idx < se.lineno - 1])
             text = self.source[self.pos:end - 1]
             self.pos = end
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 10892cc..010d4f2 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -551,8 +551,8 @@ class _TextCompiler(object):
         except SyntaxError as se:
             end = sum(
                 [self.pos, se.offset] +
-                [len(line) + 1
-                 for idx, line in enumerate(py_expr().splitlines())
+                [len(line)
+                 for idx, line in enumerate(ir.source_lines(py_expr()))
                  if idx < se.lineno - 1]
             )
             if not py_expr(end).endswith('}'):
-- 
2.43.0


From 4c116b5c23f775a8a7edc06c539207ce7ecaf16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:53 +0000
Subject: [PATCH 26/34] fix: %tag lines may end in a carriage return and a
 newline

---
 kajiki/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 90ec1d1..b72c06c 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -140,7 +140,7 @@ class _Scanner(object):
         end = self.source.find('\n', self.pos)
         if end == -1:
             end = len(self.source)
-        body = self.source[self.pos:end]
+        body = self.source[self.pos:end].rstrip('\r')
         self.pos = end + 1
         tag = self.tag(tagname, body)
         self.lineno += 1
-- 
2.43.0


From 2b63fdce80bf94ecbd59a605acfd877340f8562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:04 +0000
Subject: [PATCH 27/34] fix: a doctype quoted in a comment or CDATA section of
 the document is left alone

---
 kajiki/doctype.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/kajiki/doctype.py b/kajiki/doctype.py
index 66833d6..d10ec99 100644
--- a/kajiki/doctype.py
+++ b/kajiki/doctype.py
@@ -122,6 +122,9 @@ for dtd in (
     DocumentTypeDeclaration.by_uri[dtd.uri] = dtd
 
 
+PROLOG = re.compile(r'\ufeff?(?:\s+|<!--.*?-->|<\?.*?\?>)*', flags=re.DOTALL)
+
+
 def extract_dtd(markup):
     """Lookup the DTD in the provided markup code.
 
@@ -145,8 +148,9 @@ def extract_dtd(markup):
         <!DOCTYPE HTML PUBLIC "-//W3C//DTD HTML 4.01 Transitional//EN"
             "http://www.w3.org/TR/html4/loose.dtd">
     """
-    match = DocumentTypeDeclaration.REGEX.search(markup)
+    # Only white space, comments and processing instructions may precede a DTD
+    start = PROLOG.match(markup).end()
+    match = DocumentTypeDeclaration.REGEX.match(markup, start)
     if not match:
         return '', 0, markup
-    found = match.group()
-    return found, match.start(), markup.replace(found, '', 1)
+    return match.group(), start, markup[:start] + markup[match.end():]
-- 
2.43.0


From 743bd571f0537a1f0d390a4eae7d44a6be7f332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:40 +0000
Subject: [PATCH 28/34] fix: blank lines at the start of a braced expression do
 not shift later line numbers

---
 kajiki/xml_template.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 010d4f2..3566b2b 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -546,7 +546,9 @@ class _TextCompiler(object):
         def py_expr(end=None):
             return self.source[self.pos:end]
         try:
-            self.pos += len(py_expr()) - len(py_expr().lstrip())
+            blanks = len(py_expr()) - len(py_expr().lstrip())
+            self.lineno += py_expr()[:blanks].count('\n')
+            self.pos += blanks
             compile(py_expr(), 'find_}', 'eval')
         except SyntaxError as se:
             end = sum(
-- 
2.43.0


From dcbfea4ea6a20d7b916bb024bb7e6903e74f0926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:05 +0000
Subject: [PATCH 29/34] fix: expressions of text templates may start with or
 contain line breaks

---
 kajiki/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 4bdebf2..9519dc6 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -341,7 +341,7 @@ class ExprNode(Node):
 
     def py(self):
         if self.safe:
-            yield self.line('yield %s' % self.text)
+            yield self.line('yield (%s)' % (self.text if self.text.strip() else None))
         else:
             yield self.line('yield self.__kj__.escape(%s)' % self.text)
 
-- 
2.43.0


From 3a1ca2baddd255cea8abd9b0424ceb8807e29c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:02 +0000
Subject: [PATCH 30/34] fix: FileLoader keeps templates compiled as fragments
 apart from those rendered on their own

---
 kajiki/loader.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/kajiki/loader.py b/kajiki/loader.py
index 98352f1..52a4af7 100644
--- a/kajiki/loader.py
+++ b/kajiki/loader.py
@@ -15,14 +15,18 @@ class Loader(object):
         '''Returns the template if it is already in the cache,
         else loads the template, caches it and returns it.
         '''
-        mod = self.modules.get(name)
+        key = self._cache_key(name, **kwargs)
+        mod = self.modules.get(key)
         if mod:
             return mod
         mod = self._load(name, *args, **kwargs)
         mod.loader = self
-        self.modules[name] = mod
+        self.modules[key] = mod
         return mod
 
+    def _cache_key(self, name, **kwargs):
+        return name
+
     def default_alias_for(self, name):
         return os.path.splitext(os.path.basename(name))[0]
 
@@ -69,13 +73,18 @@ class FileLoader(Loader):
         return None
 
     def import_(self, name, *args, **kwargs):
+        key = self._cache_key(name, **kwargs)
         filename = self._filename(name)
-        if self._reload and name in self.modules:
+        if self._reload and key in self.modules:
             mtime = os.stat(filename).st_mtime
-            if mtime > self._timestamps.get(name, 0):
-                del self.modules[name]
+            if mtime > self._timestamps.get(key, 0):
+                del self.modules[key]
         return super(FileLoader, self).import_(name, *args, **kwargs)
 
+    def _cache_key(self, name, **kwargs):
+        # A fragment (for imports and includes) is compiled without doctype
+        return (name, 'fragment') if kwargs.get('is_fragment') else name
+
     def _load(self, name, encoding='utf-8', *args, **kwargs):
         '''Text templates are read in text mode and XML templates are read in
         binary mode. Thus, the ``encoding`` argument is only used for reading
@@ -90,7 +99,8 @@ class FileLoader(Loader):
         filename = self._filename(name)
         if filename is None:
             raise IOError('Unknown template %r' % name)
-        self._timestamps[name] = os.stat(filename).st_mtime
+        key = self._cache_key(name, **kwargs)
+        self._timestamps[key] = os.stat(filename).st_mtime
         if self._force_mode == 'text':
             return self._text_template(filename=filename, *args, **options)
         elif self._force_mode:
-- 
2.43.0


From fca1e32ba2bdd7f50b5094845bb358c8e19b8188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:13 +0000
Subject: [PATCH 31/34] fix: no end tag for void elements with py:content in
 html modes

---
 kajiki/xml_template.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 3566b2b..36e8f7c 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -238,7 +238,9 @@ class _Compiler(object):
         if content:
             yield ir.TextNode('>', guard)
             yield ir.ExprNode(content)
-            yield ir.TextNode('</%s>' % node.tagName, guard)
+            if not (self.mode.startswith('html')
+                    and node.tagName in HTML_OPTIONAL_END_TAGS):
+                yield ir.TextNode('</%s>' % node.tagName, guard)
         else:
             if node.childNodes:
                 yield ir.TextNode('>', guard)
-- 
2.43.0


From d4aa4b01301b6c8955e9ed10d53dae0c6fed8208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:29 +0000
Subject: [PATCH 32/34] fix: an included template does not replace a function
 or variable named like its file

---
 kajiki/ir.py       | 2 +-
 kajiki/template.py | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/kajiki/ir.py b/kajiki/ir.py
index 9519dc6..9900927 100644
--- a/kajiki/ir.py
+++ b/kajiki/ir.py
@@ -133,7 +133,7 @@ class IncludeNode(Node):
 
     def py(self):
         yield self.line(
-            'yield local.__kj__.import_(%r, None, self.__globals__).__main__()' % (
+            'yield local.__kj__.include(%r, self.__globals__).__main__()' % (
                 self.tpl_name))
 
 
diff --git a/kajiki/template.py b/kajiki/template.py
index 381a1e3..1d25b29 100644
--- a/kajiki/template.py
+++ b/kajiki/template.py
@@ -81,6 +81,7 @@ class _Template(object):
             pop_switch=self._pop_switch,
             case=self._case,
             import_=self._import,
+            include=self._include,
             escape=self._escape,
             gettext=self._gettext,
             render_attrs=self._render_attrs,
@@ -227,6 +228,12 @@ class _Template(object):
         r.__globals__['local'] = r.__globals__['self'] = r
         return r
 
+    def _include(self, name, gbls):
+        # Unlike an import, an include must not define a name.
+        r = self.loader.import_(name, is_fragment=True)(gbls)
+        r.__globals__['local'] = r.__globals__['self'] = r
+        return r
+
     def _escape(self, value):
         """Returns the given HTML with ampersands, carets and quotes encoded."""
         if value is None or isinstance(value, flattener):
-- 
2.43.0


From c41072847d8e1f81bffd11fd6f27ab57e320465c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:42 +0000
Subject: [PATCH 33/34] fix: a dot after $name that is not followed by a name
 is text, not a syntax error

---
 kajiki/text.py         | 2 +-
 kajiki/xml_template.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index b72c06c..5d05814 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -33,7 +33,7 @@ from . import ir
 _pattern = r'''
 \$(?:
     (?P<expr_escaped>\$) |      # Escape $$
-    (?P<expr_named>[_a-z][_a-z0-9.]*) | # $foo.bar
+    (?P<expr_named>[_a-z][_a-z0-9]*(?:\.[_a-z][_a-z0-9]*)*) | # $foo.bar
     {(?P<expr_braced>) | # ${....
     (?P<expr_invalid>)
 ) |
diff --git a/kajiki/xml_template.py b/kajiki/xml_template.py
index 36e8f7c..060ee5d 100644
--- a/kajiki/xml_template.py
+++ b/kajiki/xml_template.py
@@ -508,7 +508,7 @@ class _TextCompiler(object):
 
     _pattern = r'''
     \$(?:
-        (?P<expr_named>[_a-z][_a-z0-9.]*) | # $foo.bar
+        (?P<expr_named>[_a-z][_a-z0-9]*(?:\.[_a-z][_a-z0-9]*)*) | # $foo.bar
         {(?P<expr_braced>) | # ${....
         \$ # $$ -> $
     )'''
-- 
2.43.0


From cf309748bc0fc4ed2b5c66e974b46a97876f5aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:59 +0000
Subject: [PATCH 34/34] fix: text templates reject an unterminated braced
 expression instead of dropping it

---
 kajiki/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kajiki/text.py b/kajiki/text.py
index 5d05814..2c4aeec 100644
--- a/kajiki/text.py
+++ b/kajiki/text.py
@@ -165,8 +165,12 @@ class _Scanner(object):
                                                 for idx, line in enumerate(ir.source_lines(self.source[self.pos:]))
                                                 if idx < se.lineno - 1])
             text = self.source[self.pos:end - 1]
-            self.pos = end
-            return self.expr(text)
+            if self.source[end - 1:end] == '}':
+                self.pos = end
+                return self.expr(text)
+        raise kajiki.template.KajikiSyntaxError(
+            'Braced expression not terminated', self.source, self.filename,
+            self.lineno, 0)
 
 
 class _Parser(object):
-- 
2.43.0

