From b7d037a3c334a79fe98abdc681ba06d43f914389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:27 +0000
Subject: [PATCH 01/40] fix: report TypeErrors raised inside a block instead of
 masking them as an unpacking error

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index d4a1419..45032ee 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -449,7 +449,7 @@ class NODES(object):
             super(NODES.xblock, self).analyse(ctx)
 
         def translate(self, state):
-            margin, block = (c.translate(state) for c in self.children)
+            margin, block = [c.translate(state) for c in self.children]
             if not block: return margin
             
             append = (self.modifier == '...')
-- 
2.43.0


From 07a464b289eef0a6936fb3b7dc6c52c68284c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:35 +0000
Subject: [PATCH 02/40] fix: analyse the else clause of a for loop and never
 take it for the loop's body

---
 src/hypertag/core/ast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 45032ee..8ec71ec 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -938,8 +938,8 @@ class NODES(object):
         
         def setup(self):
             self.targets, self.expr = self.children[:2]
-            self.body = self.children[2] if len(self.children) >= 3 else None
             self.else_ = self.children[-1] if self.children[-1].type == 'clause_else' else None
+            self.body = self.children[2] if len(self.children) >= 3 and self.children[2] is not self.else_ else None
             assert isinstance(self.expr, NODES.expression)
             assert self.targets.type == 'targets'
             # assert self.targets.type == 'var', 'Support for multiple targets in <for> not yet implemented'
@@ -948,6 +948,7 @@ class NODES(object):
             self.expr.analyse(ctx)
             self.targets.analyse(ctx)
             if self.body: self.body.analyse(ctx)
+            if self.else_: self.else_.analyse(ctx)
 
         def translate(self, state):
             out = []
-- 
2.43.0


From 23d084df02a753cc09d32ec59964acbeb53e8adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:43 +0000
Subject: [PATCH 03/40] fix: accept 'try' and 'else' clauses that have no body

---
 src/hypertag/core/ast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 8ec71ec..ead9415 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -863,6 +863,8 @@ class NODES(object):
         If all branches fail, including the last one, empty output is rendered (exception from the last branch is NOT re-raised).
         """
         def _select_branch(self, state):
+            if self.children and self.children[0].type == 'clause_else':    # no body in the "try" clause, nothing can fail
+                return DOM(), 0
             for i, branch in enumerate(self.children):
                 try:
                     body = branch.translate(state)
@@ -904,8 +906,8 @@ class NODES(object):
         
     class xclause_else(node):
         def translate(self, state):
-            assert len(self.children) == 1
-            return self.children[0].translate(state)
+            assert len(self.children) <= 1
+            return self.children[0].translate(state) if self.children else DOM()
         
     class xblock_while(control_block):
         # def _analyse_branches(self, ctx):
-- 
2.43.0


From 98837d8f4a87523005b8b259237c36bca0b3cd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:51 +0000
Subject: [PATCH 04/40] fix: recognize keywords and None/True/False as whole
 words only

---
 src/hypertag/core/grammar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 06f2e19..9b14192 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -29,7 +29,7 @@ append           =  '...'                       # marks the block is a continuat
 block_control    =  block_assign / block_expr / block_if / block_try / block_for / block_while
 
 block_try        =  try_long / try_short
-try_long         =  'try' generic_control? clause_else*
+try_long         =  ~"try\\b" generic_control? clause_else*
 try_short        =  '?' ws (block_struct / body_control)?       # short version of "try" block:  ?tag ... or ?|...
 
 block_expr       =  mark_eval expr_assign
@@ -42,7 +42,7 @@ block_for        =  'for' space targets space 'in' space tail_for clause_else?
 block_if         =  'if' clause_if (nl 'elif' clause_if)* clause_else?
 
 clause_if        =  space tail_if
-clause_else      =  nl 'else' generic_control?
+clause_else      =  nl ~"else\\b" generic_control?
 
 targets          =  target (comma target)* (ws ',')?            # result object must be unpacked whenever at least one ',' was parsed
 target           =  ('(' ws targets ws ')') / var_def           # left side of assignment: a variable, or a tuple of variables/sub-tuples
@@ -246,7 +246,7 @@ op_shift     =  '<<' / '>>'
 op_empty     =  '?' / '!'
 
 not          =  'not'
-op_comp      =  ~"==|!=|<>|>=|<=|<|>|not\s+in|is\s+not|in|is"
+op_comp      =  ~"==|!=|<>|>=|<=|<|>|not\s+in|is\s+not\\b|in|is"
 
 ###  IDENTIFIERS
 
@@ -266,8 +266,8 @@ literal          =  number / string / boolean / none
 number_signed    =  ~"[+-]?" number
 number           =  ~"((\.\d+)|(\d+(\.\d*)?))([eE][+-]?\d+)?"      # the leading +- is added during expression construction (<neg>)
 #string           =  ~"'[^']*'" / ~'"[^"]*"'         # '...' or "..." string; no escaping of ' and " inside!
-boolean          =  'True' / 'False'
-none             =  'None'
+boolean          =  ~"(True|False)\\b"
+none             =  ~"None\\b"
 
 string           =  string_format / string_raw
 string_raw       =  ~"r'[^']*'" / ~'r"[^"]*"'         # '...' or "..." string; must not contain ' or " inside (no escaping available)
-- 
2.43.0


From cf1626fca0226a2f8151e181a524162e929888af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:57 +0000
Subject: [PATCH 05/40] fix: unpack the value when a list of targets has a
 trailing comma, like in: a, = x

---
 src/hypertag/core/ast.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index ead9415..f1b46bc 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1036,9 +1036,14 @@ class NODES(object):
             return None
     
     class xtargets(node):
+        unpack = False          # True if the assigned value must be unpacked: there's at least one comma in the list
+
+        def setup(self):
+            self.unpack = len(self.children) >= 2 or self.text().endswith(',')
+            
         def is_augmented(self):
             """True if self represents multiple targets (not a plain variable) to assign to."""
-            return len(self.children) >= 2 or self.children[0].type != 'var_def'
+            return self.unpack or self.children[0].type != 'var_def'
         
         def set_inplace(self):
             self.children[0].set_inplace()
@@ -1050,7 +1055,7 @@ class NODES(object):
         def assign(self, state, value):
             """Unpack `value` and assign to child targets."""
             N = len(self.children)
-            if N == 1:
+            if not self.unpack:
                 self.children[0].assign(state, value)
                 return
             
-- 
2.43.0


From 6d0a03a4645e8b16e2ec14c4239c26759975cfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:05 +0000
Subject: [PATCH 06/40] fix: report the right number of values when unpacking
 an empty sequence

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index f1b46bc..d0ba33d 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1060,7 +1060,7 @@ class NODES(object):
                 return
             
             # unpack and assign to multiple child targets
-            i = 0
+            i = -1
             for i, v in enumerate(value):               # raises TypeError if `value` is not iterable
                 if i >= N: raise ValueErrorEx("too many values to unpack (expected %s)" % N, self)
                 self.children[i].assign(state, v)
-- 
2.43.0


From 215295bdda5eaec3a38adf7659bc9537085378c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:12 +0000
Subject: [PATCH 07/40] fix: show the name of a duplicate attribute of a
 hypertag in the error message

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index d0ba33d..0bdbfa7 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -573,7 +573,7 @@ class NODES(object):
             
             # check that attr names are unique
             if len(self.attr_names) < len(self.attrs):
-                raise SyntaxErrorEx("duplicate attribute '%s' in hypertag definition '%s'" % (duplicate(self.attrs), self.name), self)
+                raise SyntaxErrorEx("duplicate attribute '%s' in hypertag definition '%s'" % (duplicate(attr.name for attr in self.attrs), self.name), self)
             
             # pick body attribute (attr_body) and the remaining list of regular attributes (attr_regul)
             if self.attrs and self.attrs[0].body:
-- 
2.43.0


From e2bffa86e46b96ef05b8e42aaec9ec9310b73676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 08/40] fix: space-concatenate repeated keyword attributes also
 when values are not strings

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 0bdbfa7..0f654d2 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1199,7 +1199,7 @@ class NODES(object):
             for name, expr in self.named:
                 value = expr.evaluate(state)
                 if name in named:
-                    named[name] += ' ' + value       # = '{named[name]} {value}'
+                    named[name] = '%s %s' % (named[name], value)
                 else:
                     named[name] = value
                     
-- 
2.43.0


From 6617573f51d1e10333faf724ea34234fe92a4337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:29 +0000
Subject: [PATCH 09/40] fix: reject invalid escape codes in strings with a
 syntax error

---
 src/hypertag/core/ast.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 0f654d2..4e30545 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1786,7 +1786,10 @@ class NODES(object):
     class xtext_quot(static):
         r"""In `text_quot1` and `text_quot2` productions, Python's escape characters (\n \t \x.. etc.) must be decoded."""
         def setup(self):
-            self.value = decode_escapes(self.text())
+            try:
+                self.value = decode_escapes(self.text())
+            except UnicodeDecodeError as ex:
+                raise SyntaxErrorEx("invalid escape code in a string (%s)" % ex.reason, self)
         
     class xtext_quot1(xtext_quot): pass
     class xtext_quot2(xtext_quot): pass
-- 
2.43.0


From f18fb48b9a6674c8b99401bbf2557e7c32174a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:01 +0000
Subject: [PATCH 10/40] fix: treat only spaces and tabs as indentation, other
 whitespace characters belong to the text

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 4e30545..4b62a01 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -223,7 +223,7 @@ class Grammar(Parsimonious):
         for line in script:
             linenum += 1
             line = line.rstrip()                    # trailing whitespace removed
-            tail = line.lstrip()
+            tail = line.lstrip(' \t')
             indent = line[: len(line) - len(tail)]
             
             if not tail and linenum <= total:       # only whitespace in line? add to the `margin`
-- 
2.43.0


From 62613d122d466a769b3e07ab33e58790f8dfd6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:09 +0000
Subject: [PATCH 11/40] fix: allow the header expression of a control block be
 enclosed in {...} before an inline body

---
 src/hypertag/core/ast.py     | 2 ++
 src/hypertag/core/grammar.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 4b62a01..b455173 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -896,6 +896,7 @@ class NODES(object):
         test = None             # <expression> node containing a test to be performed
         body = None             # <body> to be rendered if the clause is positive
         def setup(self):
+            self.children = [c for c in self.children if c.type != 'qualifier']     # qualifier is already taken into account by `test`
             assert 1 <= len(self.children) <= 2
             self.test = self.children[0]
             self.body = self.children[1] if len(self.children) == 2 else None
@@ -939,6 +940,7 @@ class NODES(object):
         else_   = None              # "else" clause, optional
         
         def setup(self):
+            self.children = [c for c in self.children if c.type != 'qualifier']     # qualifier is already taken into account by `expr`
             self.targets, self.expr = self.children[:2]
             self.else_ = self.children[-1] if self.children[-1].type == 'clause_else' else None
             self.body = self.children[2] if len(self.children) >= 3 and self.children[2] is not self.else_ else None
diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 9b14192..205ac07 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -48,8 +48,8 @@ targets          =  target (comma target)* (ws ',')?            # result object
 target           =  ('(' ws targets ws ')') / var_def           # left side of assignment: a variable, or a tuple of variables/sub-tuples
 var_def          =  name_id ''                                  # definition (assignment) of a variable
 
-tail_for         =  (expr_factor generic_control) / (expr_augment body_control?)
-tail_if          =  (expr_factor generic_control) / (expr         body_control?)         # expr may contain hanging operators (/|) hence it can't be followed by generic_control which may contain /| as a text block marker
+tail_for         =  (!dict embedding_braces generic_control) / (expr_factor generic_control) / (expr_augment body_control?)
+tail_if          =  (!dict embedding_braces generic_control) / (expr_factor generic_control) / (expr         body_control?)         # expr may contain hanging operators (/|) hence it can't be followed by generic_control which may contain /| as a text block marker
 
 ###  DEFINITION BLOCKS
 
-- 
2.43.0


From 7c8508ef8fc7633458fcf5ffd570dcaf62ed5661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:17 +0000
Subject: [PATCH 12/40] fix: expand a hypertag called inside an expression
 independently of the caller's indentation

---
 src/hypertag/core/ast.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index b455173..113451b 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -135,7 +135,15 @@ class EmbeddedHypertag:
     def __call__(self, body_string = None, *attrs, **kwattrs):
         
         body = DOM.Text(text_type(body_string)) if body_string is not None else DOM()
-        dom  = self.hypertag.expand(body, attrs, kwattrs, self.state, self.caller)
+        
+        # during the call, self.state may have any indentation, which must not influence the string being returned
+        indent = self.state.indentation
+        self.state.indentation = State.indentation
+        try:
+            dom = self.hypertag.expand(body, attrs, kwattrs, self.state, self.caller)
+        finally:
+            self.state.indentation = indent
+            
         dom.set_indent('')
         return dom.render()
 
-- 
2.43.0


From 1b3542c7cb855ae29144b9fbcf810bde528fb5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:25 +0000
Subject: [PATCH 13/40] fix: expand imported hypertags with the indentation of
 the place of occurrence

---
 src/hypertag/core/ast.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 113451b..0d80da4 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -115,7 +115,12 @@ class ImportedHypertag(Hypertag):
         # module's terminal state is NOT copied on subsequent expansions, which means that
         # stored values of local symbols may change after the call below;
         # TODO: make sure that values of local variables are cleared after expansion of an <xblock_def> block
-        return self.hypertag.expand(body, attrs, kwattrs, self.module_state, caller)
+        indent = self.module_state.indentation
+        self.module_state.indentation = state.indentation
+        try:
+            return self.hypertag.expand(body, attrs, kwattrs, self.module_state, caller)
+        finally:
+            self.module_state.indentation = indent
 
 class EmbeddedHypertag:
     """
-- 
2.43.0


From 00d1aaf4f8c0907c74246ad43a997ea8d73be2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:32 +0000
Subject: [PATCH 14/40] fix: make indentation of the body passed to a hypertag
 relative to the place of occurrence

---
 src/hypertag/core/ast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 0d80da4..153aea9 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -680,6 +680,8 @@ class NODES(object):
             
             # append `body` to `state`
             if self.attr_body:
+                body.set_indent(state.indentation)      # make indentation of inner nodes relative to the place of occurrence...
+                body.set_indent('')                     # ...so that the body can be rendered or moved around on its own
                 self.attr_body.assign(state, body)
             elif body:
                 raise VoidTagEx("non-empty body passed to a void hypertag '%s'" % self.name, caller)
-- 
2.43.0


From e0f5326762bac8fa858df32dabb4083dbd8617b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:41 +0000
Subject: [PATCH 15/40] fix: embed a copy of a DOM, so that a body can be
 embedded more than once

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 153aea9..92fddba 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -528,7 +528,7 @@ class NODES(object):
             
         def translate(self, state):
             body = self.expr.evaluate(state)
-            body = self._as_sequence(body)
+            body = self._as_sequence(body).copy()               # a copy, because the same nodes can be embedded in multiple places
             body.set_indent(state.indentation)                  # set indentation of the fragment to be inserted
             return body
         
-- 
2.43.0


From e47ee6d8cd6dc7fe3c733b1864ff75f35ffb1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:37 +0000
Subject: [PATCH 16/40] fix: determine indentation of a text block from its
 source text only, not from embedded values

---
 src/hypertag/core/ast.py | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 92fddba..d5aea4c 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -486,31 +486,33 @@ class NODES(object):
             state.indentation = ''
             
             lead = self.column          # horizontal position where the block's first line begins in the script
+            
+            # lines of the block as pairs: (whitespace, content), where the `whitespace` only comes from the script,
+            # never from values of embedded expressions; both strings are empty in an empty line
+            lines = [('', '')]
             try:
-                body = self._render_all(self.children, state)
-                # if body.startswith('\n'):
-                #     output = body[1:]                   # no headline? drop the leading newline
-                # else:
-                output = ' ' * lead + body          # in the headline, spaces are prepended to replace leading tag(s) and a marker character /|!
+                for child in self.children:
+                    if isinstance(child, NODES.line):
+                        space, content = child.render_split(state)
+                        if len(lines) == 1: space = ' ' * lead + space      # in the headline, spaces are prepended to replace leading tag(s) and a marker character /|!
+                        lines[-1] = (space, content)
+                    else:
+                        lines += [('', '')] * child.render(state).count('\n')       # margin (1+ newlines), or indent/dedent (empty)
             finally:
                 state.indentation = indent
 
-            sub_indent = get_indent(output)
-            sub_indent = sub_indent[:lead+1]        # max 1 initial space/tab after the lead is dropped; remaining sub-indentation is preserved in `output`
-            output = del_indent(output, sub_indent)
-            # print('sub_indent: "{sub_indent}"')
+            sub_indent = get_indent('\n'.join(space + 'x' for space, content in lines if space or content))
+            sub_indent = sub_indent[:lead+1]        # max 1 initial space/tab after the lead is dropped; remaining sub-indentation is preserved
+            lines = [(space[len(sub_indent):], content) for space, content in lines]
 
             # if tail lines have shorter indent than the headline, drop all the lead + 1 space (gap)
             if len(sub_indent) < lead:
+                space, content = lines[0]
                 drop = lead - len(sub_indent)
-                if output[drop:drop+1] == ' ': drop += 1
-                output = output[drop:]
+                if space[drop:drop+1] == ' ': drop += 1
+                lines[0] = (space[drop:], content)
                 
-            # # drop the 1st line (headline) if empty
-            # if output.split('\n', 1)[0].strip() == '':
-            #     output =
-            
-            return output
+            return '\n'.join(space + content for space, content in lines)
 
     class xblock_markup(block_text): pass
     class xblock_normal(block_text): pass
@@ -1110,6 +1112,11 @@ class NODES(object):
             return DOM.text(self.render_inline(state))
         def render(self, state):
             return state.indentation + self.render_inline(state)
+        def render_split(self, state):
+            """Like render(), but returns a pair of strings: (leading whitespace present in the script, remaining content)."""
+            text  = self.text()
+            space = text[:len(text) - len(text.lstrip(' \t'))]
+            return state.indentation + space, self.render_inline(state)[len(space):]
         def render_inline(self, state):
             """Render contents of the line, i.e., everything except boundary (indentation, margin). Implemented by subclasses."""
             raise NotImplementedError
-- 
2.43.0


From 83f22fcd61db2a60fec93e7fde3d08bb78fe0b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:17 +0000
Subject: [PATCH 17/40] fix: let top-level variables that override built-ins be
 exported like all the others

---
 src/hypertag/core/ast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index d5aea4c..b78969e 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -406,7 +406,9 @@ class NODES(object):
             if globals: self.globals = globals
         
         def analyse(self, ctx):
+            ctx.regular_depth -= 1          # built-ins belong to an outer namespace and can be overridden in the document
             self.slots_in = {symbol: ValueSlot(symbol, value, ctx) for symbol, value in self.globals.items()}
+            ctx.regular_depth += 1
             # ctx.pushall(self.slots_in)   -- not needed because each symbol is pushed to `ctx` during ValueSlot() creation
             position = ctx.position()
             for c in self.children: c.analyse(ctx)
-- 
2.43.0


From 6209b0af02bd2257ac5df70ad77155430187c48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:23 +0000
Subject: [PATCH 18/40] fix: keep assignments made in control blocks when they
 override a variable of an outer scope

---
 src/hypertag/core/ast.py     | 4 +++-
 src/hypertag/core/structs.py | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index b78969e..4b7432d 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -820,7 +820,7 @@ class NODES(object):
                 branch.analyse(ctx)
                 symbols = ctx.asdict(position)          # top-level symbols declared in this branch...
                 ctx.reset(position)
-                ctx.pushnew(symbols)                    # ...only new symbols (not declared in a previous branch) are added
+                ctx.pushall(symbols)                    # ...they stay visible in the next branches and after the block
                 
                 # local_slots.append(symbols)
                 # new_symbols += symbols.keys()
@@ -1430,6 +1430,8 @@ class NODES(object):
                 else:
                     self.slot_write = Slot(symbol, ctx)
                     ctx.push(symbol, self.slot_write)
+                if self.read:
+                    self.slot_read = self.slot_write            # reads the outer variable until the new one is assigned
             
         def evaluate(self, state):
             
diff --git a/src/hypertag/core/structs.py b/src/hypertag/core/structs.py
index 414101e..2a39ccc 100644
--- a/src/hypertag/core/structs.py
+++ b/src/hypertag/core/structs.py
@@ -421,6 +421,8 @@ class Slot:
     symbol  = None
     
     primary = None      # 1st definition of this symbol, if self represents a re-assignment (override)
+    outer   = None      # slot of the previous definition of this symbol, typically in an outer scope;
+                        # its value is used as long as `self` has no value assigned
     depth   = None      # ctx.regular_depth of this slot, for correct identification of re-assignments that occur
                         # at the same depth (in the same namespace)
     
@@ -438,6 +440,7 @@ class Slot:
         # if link and link.depth == self.depth:
         #     self.primary = link
         # else:
+        self.outer = link
         ctx.push(symbol, self)
         
     def set(self, state, value):
@@ -445,6 +448,7 @@ class Slot:
         
     def get(self, state):
         """Raises KeyError if this slot is uninitialized in `state`."""
+        if self.outer is not None and self not in state: return self.outer.get(state)
         return state[self.primary or self]
     
 
-- 
2.43.0


From 00571df172f390400f1f50ca8ab5f26e0f5269c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:31 +0000
Subject: [PATCH 19/40] fix: clear local variables whenever their scope is
 entered again

---
 src/hypertag/core/ast.py     | 7 +++++++
 src/hypertag/core/structs.py | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 4b7432d..21b76dc 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -548,6 +548,7 @@ class NODES(object):
     class xblock_struct(node):
         tags = None         # <tags_expand> node
         body = None         # <body_struct> node
+        local = ()          # slots of symbols defined inside this block
         
         def setup(self):
             self.tags = self.children[0]
@@ -558,10 +559,12 @@ class NODES(object):
             ctx.regular_depth += 1
             position = ctx.position()
             for c in self.children: c.analyse(ctx)
+            self.local = list(ctx.asdict(position).values())
             ctx.reset(position)             # tagged node defines a local namespace, hence need to drop symbols defined inside
             ctx.regular_depth -= 1
             
         def translate(self, state):
+            state.clear(self.local)         # values left over from a previous execution of this block must not be visible
             body = self.body.translate(state)
             body = self.tags.apply_tags(state, body)
             body.set_indent(state.indentation)
@@ -576,6 +579,7 @@ class NODES(object):
         attr_regul = None           # all regular (non-body) attributes, as a list of children
         body       = None
         slot       = None
+        local      = ()             # slots of attributes and other symbols defined inside this block
         native     = None           # a Native tag instance that will be inserted into all DOMs
         
         def setup(self):
@@ -617,6 +621,7 @@ class NODES(object):
 
             self.body.analyse(ctx)                  # analyse the formal body
 
+            self.local = list(ctx.asdict(position).values())
             ctx.reset(position)
             ctx.hypertag_depth -= 1
             ctx.regular_depth  -= 1
@@ -645,6 +650,8 @@ class NODES(object):
         def _append_attrs(self, body, attrs, kwattrs, state, caller):
             """Extend `state` with actual values of tag attributes."""
 
+            state.clear(self.local)                 # values left over from a previous expansion must not be visible
+
             # verify no. of positional attributes & names of keyword attributes
             if len(attrs) > len(self.attr_regul):
                 raise TypeErrorEx("hypertag '%s' takes %s positional attributes but %s were given" % (self.name, len(self.attr_regul), len(attrs)), caller)
diff --git a/src/hypertag/core/structs.py b/src/hypertag/core/structs.py
index 2a39ccc..c9cb048 100644
--- a/src/hypertag/core/structs.py
+++ b/src/hypertag/core/structs.py
@@ -385,6 +385,10 @@ class State:
     def update(self, values):
         self.values.update(values)
         
+    def clear(self, slots):
+        """Make the given slots uninitialized."""
+        for slot in slots: self.values.pop(slot, None)
+        
     def indent(self, whitechar):
         self.indentation += whitechar
     
-- 
2.43.0


From 8dceef3522c42e982ff41c1eb7d1d771c28e7fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:14 +0000
Subject: [PATCH 20/40] fix: search for a script in plain folders when its
 import path is not a Python package

---
 src/hypertag/core/runtime.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 17396f6..b1d262c 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -248,15 +248,20 @@ class HyLoader(Loader):
             # 2. try the Python's standard import mechanism (importlib); must be applied to the parent package, not the script itself
             if not location and '.' in path:
                 package_name, filename = path.rsplit('.', 1)
-                pkg = importlib.import_module(package_name)                 # package_name is an absolute path, so referrer is not needed here
-                package_path = pkg.__file__
-                if package_path.endswith('.py'):
-                    package_path = os.path.dirname(package_path)            # truncate /__init__.py part of a package file path
+                try:
+                    pkg = importlib.import_module(package_name)             # package_name is an absolute path, so referrer is not needed here
+                    package_path = getattr(pkg, '__file__', None)
+                except ModuleNotFoundError:
+                    package_path = None
+
+                if package_path:
+                    if package_path.endswith('.py'):
+                        package_path = os.path.dirname(package_path)        # truncate /__init__.py part of a package file path
                 
-                location = package_path + PATH_SEP + filename + self.SCRIPT_EXTENSION
-                python_path = package_path + '.' + filename
-                if location and not os.path.exists(location):
-                    location = python_path = None
+                    location = package_path + PATH_SEP + filename + self.SCRIPT_EXTENSION
+                    python_path = package_path + '.' + filename
+                    if not os.path.exists(location):
+                        location = python_path = None
                 
             # 3. try using the process' current folder as a root
             if not location:
-- 
2.43.0


From 1951f8080b25759abab710fbaafa69b3bd320dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 21/40] fix: set the package of scripts imported through a
 Python package to its import path, not the file path

---
 src/hypertag/core/runtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index b1d262c..295d563 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -259,7 +259,7 @@ class HyLoader(Loader):
                         package_path = os.path.dirname(package_path)        # truncate /__init__.py part of a package file path
                 
                     location = package_path + PATH_SEP + filename + self.SCRIPT_EXTENSION
-                    python_path = package_path + '.' + filename
+                    python_path = path
                     if not os.path.exists(location):
                         location = python_path = None
                 
-- 
2.43.0


From a5eb132c565f3702728d3988ad4bf5b83712d1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:30 +0000
Subject: [PATCH 22/40] fix: reuse already imported scripts whatever way their
 location has been resolved

---
 src/hypertag/core/runtime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 295d563..2adccad 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -278,6 +278,8 @@ class HyLoader(Loader):
         if not location or not os.path.exists(location):
             return None
         
+        if location in self.cache: return self.cache[location]
+
         package = python_path.rsplit('.', 1)[0] if python_path else None
         
         script = open(location).read()
-- 
2.43.0


From 3c9f6a82875dafb3c56da7e1298576202ad25f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:37 +0000
Subject: [PATCH 23/40] fix: leave the context passed by the caller to a Django
 template unmodified

---
 src/hypertag/django/backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hypertag/django/backend.py b/src/hypertag/django/backend.py
index 4058080..a21aa70 100644
--- a/src/hypertag/django/backend.py
+++ b/src/hypertag/django/backend.py
@@ -69,8 +69,7 @@ class Template:
         self.filename = filename
 
     def render(self, context=None, request=None):
-        if context is None:
-            context = {}
+        context = dict(context) if context is not None else {}
         if request is not None:
             context['request'] = request
             context['csrf_input'] = csrf_input_lazy(request)
-- 
2.43.0


From ab666b7ef8bd69093720865b56119c1e601becbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:32 +0000
Subject: [PATCH 24/40] fix: do not add an extra line when the body of a
 control block or hypertag starts with blank lines

---
 src/hypertag/core/ast.py | 7 +++++--
 src/hypertag/core/dom.py | 6 ++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 21b76dc..b2c454e 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -471,7 +471,7 @@ class NODES(object):
             dedent = (self.modifier == '<')
             
             if not append:
-                block[0].set_outline()            # mark the 1st node of the block as being "outline" not "inline"
+                block.set_outline()               # mark the 1st node of the block as being "outline" not "inline"
             if dedent:
                 block.set_indent('')
             return DOM(margin, block)
@@ -644,7 +644,7 @@ class NODES(object):
             output.set_indent(state.indentation)
             # return output
             
-            if output: output[0].set_outline(False)         # node's `outline` will be set for the root node up in xblock.translate()
+            output.set_outline(False)                       # node's `outline` will be set for the root node up in xblock.translate()
             return DOM.node(output, state.indentation, tag = self.native, kwattrs = dom_attrs)
 
         def _append_attrs(self, body, attrs, kwattrs, state, caller):
@@ -1846,6 +1846,9 @@ class NODES(object):
         def setup(self):
             self.value = self.text()[:-1]
 
+        def translate(self, state):
+            return DOM.text(self.value, margin = True) if self.value else DOM()
+
     class xescape(static):
         def setup(self):
             escape = self.text()
diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index 3073649..f35fcc4 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -133,6 +133,11 @@ class DOM:
         for n in self.nodes:
             n.set_indent(indent)
             
+    def set_outline(self, outline = True):
+        """Set `outline` of the 1st node that represents an actual block rather than a vertical margin of a block."""
+        for n in self.nodes:
+            if not n.margin: return n.set_outline(outline)
+            
     def render(self):
         return ''.join(node.render() for node in self.nodes)
 
@@ -277,6 +282,7 @@ class DOM:
         
         body    = None      # DOM (possibly empty) containing child nodes of a non-terminal node; None in DOM.Text
         
+        margin  = False     # True in a text node that represents a vertical margin (empty lines) before a block
         outline = False     # True/False denotes an "outline" block or an "inline" node; adds a leading newline during rendering if True
         indent  = None      # indentation string of this block: absolute (when starts with \n) or relative
                             # to its parent (otherwise); None means this is an inline (headline) block, no indentation
-- 
2.43.0


From 6bdec4557dd1c1a8233f96ea37bca9e6d8e68e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 25/40] fix: evaluate a one-element tuple without parentheses
 to a tuple, like in: $x = 1,

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index b2c454e..3d3580f 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1978,7 +1978,7 @@ class HypertagAST(BaseTree):
     # nodes that will be replaced with their child if there is exactly 1 child AFTER rewriting of all children;
     # they must have a corresponding x... node class, because pruning is done after rewriting, not before
     _compact_ = "factor_filt factor_strict factor_var factor pow_expr term arith_expr shift_expr and_expr xor_expr or_expr concat_expr " \
-                "pipeline comparison not_test and_test or_test ifelse_test expr_tuple " \
+                "pipeline comparison not_test and_test or_test ifelse_test " \
                 "block_struct"
 
     _reduce_anonym_ = True      # reduce all anonymous nodes, i.e., nodes generated by unnamed expressions, typically groupings (...)
-- 
2.43.0


From 137d189e69555f84cf2f56e5fe726d616d8e335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:31 +0000
Subject: [PATCH 26/40] fix: make a slice of a DOM contain nodes, not a nested
 list of nodes

---
 src/hypertag/core/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index f35fcc4..f480c9d 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -95,7 +95,7 @@ class DOM:
         if isinstance(pos, int):
             return self.nodes[pos]
         if isinstance(pos, (int, slice)):
-            return DOM(self.nodes[pos], _strict = False)
+            return DOM(*self.nodes[pos], _strict = False)
         # if isinstance(pos, (str, Tag)):
         return self.select(pos)
     
-- 
2.43.0


From ff177d562943705777cc6cf4dc43e1b04572385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:15 +0000
Subject: [PATCH 27/40] fix: evaluate a repeated negation to a boolean like in
 Python: not not x

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 3d3580f..6487d39 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1699,7 +1699,7 @@ class NODES(object):
             assert len(self.children) >= 2 and all(c.type == 'not' for c in self.children[:-1])
             neg = not (len(self.children) % 2)              # check parity of 'children' to see if negation appears even or odd no. of times
             val = self.children[-1].evaluate(state)
-            return not val if neg else val
+            return not val if neg else bool(val)
     
     class xand_test(simple_chain_expression):
         "chain of logical 'and' operators. Lazy evaluation: if false item is encountered, it's returned without evaluation of subsequent items"
-- 
2.43.0


From 847dc50fb115178211f242e924b5df28f9def945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:02 +0000
Subject: [PATCH 28/40] fix: let StopIteration raised inside a tuple, set,
 concatenation or text surface with its own type

---
 src/hypertag/core/ast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 6487d39..c6a8629 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -360,7 +360,7 @@ class NODES(object):
 
         @staticmethod
         def _render_all(nodes, state):
-            return u''.join(n.render(state) for n in nodes)
+            return u''.join([n.render(state) for n in nodes])
             
         def __str__(self): return "<%s>" % self.__class__.__name__  #object.__str__(self)
 
@@ -1648,7 +1648,7 @@ class NODES(object):
                p style={"font-size:" size}
         """
         def evaluate(self, state, error = "expression to be string-concatenated evaluates to None"):
-            return ''.join(STR(expr.evaluate(state), expr, error) for expr in self.children)
+            return ''.join([STR(expr.evaluate(state), expr, error) for expr in self.children])
             # items = (STR(expr.evaluate(state)) for expr in self.children)
             # return ' '.join(item for item in items if item != '')     # empty strings '' silently removed from concatenation
         
@@ -1754,14 +1754,14 @@ class NODES(object):
 
     class xtuple(expression):
         def evaluate(self, state):
-            return tuple(child.evaluate(state) for child in self.children)
+            return tuple([child.evaluate(state) for child in self.children])
 
     class xexpr_tuple(xtuple):
         pass
         
     class xset(expression):
         def evaluate(self, state):
-            return set(child.evaluate(state) for child in self.children)
+            return set([child.evaluate(state) for child in self.children])
 
     class xdict(expression):
         def evaluate(self, state):
-- 
2.43.0


From 3b230d574562547574b74a90489fa35539433f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:25 +0000
Subject: [PATCH 29/40] fix: accept a qualified embedding as a positional
 attribute or a default: H {x}? and %H a={x}?

---
 src/hypertag/core/ast.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index c6a8629..72b2e4c 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1276,10 +1276,11 @@ class NODES(object):
             
     class xattr_def(attribute):
         def setup(self):
-            assert 1 <= len(self.children) <= 2
+            assert 1 <= len(self.children) <= 3
             self.name = self.children[0].value          # <name_xml>
-            if len(self.children) == 2:
+            if len(self.children) >= 2:
                 self.expr = self.children[1]
+            # there can be a qualifier as self.children[2]; its existence is already taken into account by self.children[1]
             
     # in-occurrence attributes:  xattr_named, xattr_unnamed, xattr_short
     
@@ -1292,8 +1293,9 @@ class NODES(object):
             
     class xattr_unnamed(attribute):
         def setup(self):
-            assert len(self.children) == 1
+            assert 1 <= len(self.children) <= 2 and isinstance(self.children[0], NODES.expression)
             self.expr = self.children[0]
+            # there can be a qualifier as self.children[1]; its existence is already taken into account by self.children[0]
             
     class xattr_short(attribute):
         def setup(self):
-- 
2.43.0


From fa55fbdebdefa5b56d457a9aff5e50c5c2b52e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:53 +0000
Subject: [PATCH 30/40] fix: assign unpacked values only after their number has
 been verified, like in Python

---
 src/hypertag/core/ast.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 72b2e4c..8befc7a 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1088,12 +1088,14 @@ class NODES(object):
                 return
             
             # unpack and assign to multiple child targets
-            i = -1
-            for i, v in enumerate(value):               # raises TypeError if `value` is not iterable
-                if i >= N: raise ValueErrorEx("too many values to unpack (expected %s)" % N, self)
-                self.children[i].assign(state, v)
-            if i+1 < N:
-                raise ValueErrorEx("not enough values to unpack (expected %s, got %s)" % (N, i+1), self)
+            values = []
+            for v in value:                             # raises TypeError if `value` is not iterable
+                if len(values) >= N: raise ValueErrorEx("too many values to unpack (expected %s)" % N, self)
+                values.append(v)
+            if len(values) < N:
+                raise ValueErrorEx("not enough values to unpack (expected %s, got %s)" % (N, len(values)), self)
+            for child, v in zip(self.children, values):
+                child.assign(state, v)
             
         def evaluate(self, state):
             assert len(self.children) == 1
-- 
2.43.0


From 27ef5f88f4d4153f249fd59fabd5741b14af9829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:00 +0000
Subject: [PATCH 31/40] fix: let StopIteration raised inside a nested block
 surface with its own type

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 8befc7a..cacf603 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1108,7 +1108,7 @@ class NODES(object):
         def translate(self, state):
             indent = state.indentation
             try:
-                return DOM(n.translate(state) for n in self.children)
+                return DOM([n.translate(state) for n in self.children])
                 # return self._translate_all(self.children, state)
             finally:
                 # if an intermediate child node raised an exception, we need to revert the indentation
-- 
2.43.0


From 6860ae8ca7183a3018bbe283ee9ee586c19e2abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 32/40] fix: select() and skip() by an attribute fail on nodes
 that have no attributes

---
 src/hypertag/core/dom.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index f480c9d..8575ca9 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -257,9 +257,10 @@ class DOM:
         if tag  is not None and node.tag is not tag: return False
         if name is not None and (node.tag is None or node.tag.name != name): return False
         
+        kwattrs = node.kwattrs or {}
         for a, v in attrs.items():
-            if a not in node.kwattrs: return False
-            if v is not DOM.ATTR_DEFINED and node.kwattrs[a] != v: return False
+            if a not in kwattrs: return False
+            if v is not DOM.ATTR_DEFINED and kwattrs[a] != v: return False
 
         return True
     
-- 
2.43.0


From cafb2333becdb9469333f8095eb461c1a9b39d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:35 +0000
Subject: [PATCH 33/40] fix: DOM.alter() applied the transform in the opposite
 order than requested

---
 src/hypertag/core/dom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index 8575ca9..c1386d9 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -179,13 +179,13 @@ class DOM:
         the input node itself can also be returned.
         The alter() function returns self.
         """
-        if order == 'preorder':
+        if order == 'postorder':
             for node in self.nodes: node.alter(transform, skip, order)
         
         new_nodes  = itertools.chain(*(transform(node) for node in self.nodes))
         self.nodes = self._flatten(new_nodes)
         
-        if order == 'postorder':
+        if order == 'preorder':
             for node in self.nodes: node.alter(transform, skip, order)
 
         return self
-- 
2.43.0


From f01cbf950e07244e5e8ce72f179c8946a38a885c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:45 +0000
Subject: [PATCH 34/40] fix: errors pointed at the last line of a multi-line
 block instead of its first line

---
 src/hypertag/nifty/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/nifty/parsing.py b/src/hypertag/nifty/parsing.py
index 21f5ebb..af54a50 100755
--- a/src/hypertag/nifty/parsing.py
+++ b/src/hypertag/nifty/parsing.py
@@ -27,7 +27,7 @@ class ParserError(Exception):
         if node:
             self.node, self.pos, self.text = node, node.pos, node.text(self.MAXLEN)
         if self.pos:                                            # calculate the line number and column of self.pos, if possible
-            prefix = node.fulltext[:self.pos[1]]
+            prefix = node.fulltext[:self.pos[0]]
             self.line = prefix.count('\n') + 1
             self.column = len(prefix) - prefix.rfind('\n')
         msg = self.make_msg(msg) or msg
-- 
2.43.0


From af53cadb7c26a9e541e3578064d5a2d83040e21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:53 +0000
Subject: [PATCH 35/40] fix: no location in the error about a positional
 attribute after a keyword one

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index cacf603..92a51e8 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1196,7 +1196,7 @@ class NODES(object):
                 name = attr.name
                 expr = attr.expr
                 if name is None:
-                    if self.named: raise SyntaxErrorEx("positional argument follows keyword argument")
+                    if self.named: raise SyntaxErrorEx("positional argument follows keyword argument", attr)
                     self.unnamed.append(expr)
                 else:
                     # if name in self.named: raise SyntaxErrorEx("attribute '{name}' appears twice on attributes list of tag '{self.name}'", attr)
-- 
2.43.0


From 434e3b8d998fedde78a6ba00165d09fd6332f8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:00 +0000
Subject: [PATCH 36/40] fix: control block with an inline comment and no body
 was a syntax error, which also shifted reported lines of syntax errors

---
 src/hypertag/core/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/grammar.py b/src/hypertag/core/grammar.py
index 205ac07..03457e4 100644
--- a/src/hypertag/core/grammar.py
+++ b/src/hypertag/core/grammar.py
@@ -90,7 +90,7 @@ pass             =  'pass'
 generic_control  =  (ws body_text) / body_control               # like body_control, but additionally allows full-text body
 generic_struct   =  (ws body_text) / body_struct                # like body_struct, but additionally allows full-text body
 
-body_control     =  (ws mark_struct inline_comment? tail_blocks?) / (inline_comment? tail_blocks)
+body_control     =  (ws mark_struct inline_comment? tail_blocks?) / (inline_comment tail_blocks?) / tail_blocks
 body_struct      =  (ws mark_struct)? ((ws headline) / inline_comment)? tail_blocks?       # this rule matches empty string '' (!)
 
 body_text        =  block_verbat / block_normal / block_markup / block_embed
-- 
2.43.0


From d8c9f46a3d976a4b18001d1f627c45c0281e3045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:50 +0000
Subject: [PATCH 37/40] fix: a tag called in an expression received its body as
 a text node, not as a DOM

---
 src/hypertag/core/ast.py | 2 +-
 src/hypertag/core/tag.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 92a51e8..e287703 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -139,7 +139,7 @@ class EmbeddedHypertag:
         
     def __call__(self, body_string = None, *attrs, **kwattrs):
         
-        body = DOM.Text(text_type(body_string)) if body_string is not None else DOM()
+        body = DOM.text(text_type(body_string)) if body_string is not None else DOM()
         
         # during the call, self.state may have any indentation, which must not influence the string being returned
         indent = self.state.indentation
diff --git a/src/hypertag/core/tag.py b/src/hypertag/core/tag.py
index c28ea7d..8663168 100644
--- a/src/hypertag/core/tag.py
+++ b/src/hypertag/core/tag.py
@@ -40,7 +40,7 @@ class Tag:
         without an intermediate DOM. This method can be used as a shortcut inside Hypertag expressions
         to skip DOM creation entirely.
         """
-        body = DOM.Text(text_type(body_string)) if body_string is not None else DOM()
+        body = DOM.text(text_type(body_string)) if body_string is not None else DOM()
         return self.expand(body, attrs, kwattrs)
         
 
-- 
2.43.0


From b237863d1c93004bbf745de4dfb46167afe37482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:12 +0000
Subject: [PATCH 38/40] fix: Django filters can be imported when Django is
 already configured

hypertag.django.filters always called settings.configure(), which raises
RuntimeError("Settings already configured.") inside any Django project.
---
 src/hypertag/django/filters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/django/filters.py b/src/hypertag/django/filters.py
index 23e1bc8..030fd0e 100644
--- a/src/hypertag/django/filters.py
+++ b/src/hypertag/django/filters.py
@@ -20,11 +20,12 @@ from django.template.defaultfilters import register as __register_default__
 from django.contrib.humanize.templatetags.humanize import register as __register_humanize__
 
 ##
-## for now, Django's default settings are always used in those filters that depend on them
+## outside of a Django project, default settings are used in those filters that depend on them
 ##
 
-__settings__.configure()
-__django__.setup()
+if not __settings__.configured:
+    __settings__.configure()
+    __django__.setup()
 
 
 globals().update(__register_humanize__.filters)
-- 
2.43.0


From b559be1301d4ed8ed9aea7c854189e5eece6c00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:32 +0000
Subject: [PATCH 39/40] fix: indentation is never encoded with characters that
 belong to words

When the default special characters occur in a script, the parser looked for any
4 other characters, possibly U+2776 and the following ones, which are alphanumeric
for regexes. Keywords followed by an indent (like "try") were not recognized then.
---
 src/hypertag/core/ast.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index e287703..2022aef 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -199,10 +199,11 @@ class Grammar(Parsimonious):
         
         chars = []
         
-        # find 4 unicode characters that are not in `text`; start with CHARS_DEFAULT[0]
+        # find 4 unicode characters that are not in `text`; start with CHARS_DEFAULT[0];
+        # alphanumeric characters are skipped, otherwise a keyword followed by an INDENT would look like a longer word
         code = ord(Grammar.CHARS_DEFAULT[0])
         for _ in range(4):
-            while chr(code) in text:
+            while chr(code) in text or chr(code).isalnum():
                 code += 1
             chars.append(chr(code))
             code += 1
-- 
2.43.0


From 726be25e94fc5529647f4108582648d4cf95db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:19 +0000
Subject: [PATCH 40/40] fix: StopIteration raised while a value is rendered is
 not lost

When str() of an attribute's value raised StopIteration, map() took it for the
end of attributes: the rest of them disappeared from the output. The same
exception raised in a nested node surfaced as RuntimeError.
---
 src/hypertag/core/dom.py | 2 +-
 src/hypertag/core/tag.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index c1386d9..221d7f6 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -139,7 +139,7 @@ class DOM:
             if not n.margin: return n.set_outline(outline)
             
     def render(self):
-        return ''.join(node.render() for node in self.nodes)
+        return ''.join([node.render() for node in self.nodes])
 
     def tree(self, indent = '', step = '  '):
         r"""Return a multiline \n-terminated string that presents this DOM's structure as a list of trees."""
diff --git a/src/hypertag/core/tag.py b/src/hypertag/core/tag.py
index 8663168..ae2e3ce 100644
--- a/src/hypertag/core/tag.py
+++ b/src/hypertag/core/tag.py
@@ -99,8 +99,8 @@ class Markup(Tag):
     def _expand(self, name, body, kwattrs):
         
         # render attributes
-        kwattrs = filter(None, map(self._render_attr, kwattrs.items()))
-        tag = ' '.join([name] + list(kwattrs))
+        kwattrs = [self._render_attr(item) for item in kwattrs.items()]
+        tag = ' '.join([name] + list(filter(None, kwattrs)))
 
         body = body.render()
         
-- 
2.43.0

