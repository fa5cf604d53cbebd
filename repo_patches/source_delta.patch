From 7298b0b920feed06eafc560e4f2a2c2fd5c17fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 01/22] fix: publish the cache of built-in symbols only after
 all of them are loaded

---
 src/hypertag/core/runtime.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 17396f6..d66941e 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -333,11 +333,12 @@ class Runtime:
         This typically means all general-purpose symbols + standard tags/variables specific for a target language.
         """
         if self._builtins is None:
-            self._builtins = {}
+            builtins = {}
             for path in self.BUILTINS:
                 module = self.import_module(path, RootModule(), None)
-                self._builtins.update(module.symbols)
-                
+                builtins.update(module.symbols)
+            self._builtins = builtins           # published only when complete: other threads can be reading it, and an import can fail
+            
         return dict(self._builtins)
         
     def import_module(self, path, referrer, ast_node):
-- 
2.43.0


From a4b4390c6891a1396810ac86b58937760fffebae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 02/22] fix: expand every hypertag in its own copy of the state

---
 src/hypertag/core/ast.py     | 7 ++-----
 src/hypertag/core/structs.py | 4 ++--
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index d4a1419..c8c599c 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -110,11 +110,7 @@ class ImportedHypertag(Hypertag):
         
     def expand(self, body, attrs, kwattrs, state, caller):
         
-        # module_state = State(self.module_state.values)          # module's terminal state is copied anew on every tag expansion
-
-        # module's terminal state is NOT copied on subsequent expansions, which means that
-        # stored values of local symbols may change after the call below;
-        # TODO: make sure that values of local variables are cleared after expansion of an <xblock_def> block
+        # module's terminal state is copied in hypertag.expand(), so it's never modified by expansions
         return self.hypertag.expand(body, attrs, kwattrs, self.module_state, caller)
 
 class EmbeddedHypertag:
@@ -617,6 +613,7 @@ class NODES(object):
             Translate the formal self.body in a given `state`, insert the actual `body` wherever necessary,
             and return as a DOM (not a string!) for possible further manipulation in other hypertags.
             """
+            state = state.copy()                # attributes and local variables must not leak to other (subsequent, nested, concurrent) expansions
             dom_attrs = self._append_attrs(body, attrs, kwattrs, state, caller)         # extend `state` with actual values of tag attributes
             output = self.body.translate(state)
             output.set_indent(state.indentation)
diff --git a/src/hypertag/core/structs.py b/src/hypertag/core/structs.py
index 414101e..cdfcf45 100644
--- a/src/hypertag/core/structs.py
+++ b/src/hypertag/core/structs.py
@@ -378,8 +378,8 @@ class State:
         self.values[slot] = value
         
     def copy(self):
-        dup = State()
-        dup.values = self.values.copy()
+        dup = State(self.values)
+        dup.indentation = self.indentation
         return dup
         
     def update(self, values):
-- 
2.43.0


From a27bbda9f0c758bac5e95fab3f046c9c12f6c4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 03/22] fix: do not cache missing modules, so that they can be
 imported later on

---
 src/hypertag/core/runtime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index d66941e..5133168 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -153,7 +153,8 @@ class Loader:
         if location is None: return None
         if location in self.cache: return self.cache[location]
         
-        module = self.cache[location] = self._read(location, runtime)
+        module = self._read(location, runtime)
+        if module is not None: self.cache[location] = module        # a missing module is NOT cached, it may become available later on
         return module
 
     def _find(self, path, referrer):
-- 
2.43.0


From deb16169f5a3e2ed2dd54a6207a8a4e1d665a834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 04/22] fix: search the current and referrer's folder for
 scripts also when an import path contains dots

---
 src/hypertag/core/runtime.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 5133168..153daa8 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -249,15 +249,12 @@ class HyLoader(Loader):
             # 2. try the Python's standard import mechanism (importlib); must be applied to the parent package, not the script itself
             if not location and '.' in path:
                 package_name, filename = path.rsplit('.', 1)
-                pkg = importlib.import_module(package_name)                 # package_name is an absolute path, so referrer is not needed here
-                package_path = pkg.__file__
-                if package_path.endswith('.py'):
-                    package_path = os.path.dirname(package_path)            # truncate /__init__.py part of a package file path
-                
-                location = package_path + PATH_SEP + filename + self.SCRIPT_EXTENSION
-                python_path = package_path + '.' + filename
-                if location and not os.path.exists(location):
-                    location = python_path = None
+                package_path = self._package_path(package_name)             # package_name is an absolute path, so referrer is not needed here
+                if package_path:
+                    location = package_path + PATH_SEP + filename + self.SCRIPT_EXTENSION
+                    python_path = path
+                    if not os.path.exists(location):
+                        location = python_path = None
                 
             # 3. try using the process' current folder as a root
             if not location:
@@ -285,6 +282,20 @@ class HyLoader(Loader):
         return module
         
     
+    @staticmethod
+    def _package_path(package_name):
+        """Folder of a Python package given by its absolute import path, or None if there's no such package (with __init__.py)."""
+        try:
+            pkg = importlib.import_module(package_name)
+        except ModuleNotFoundError as ex:
+            if ex.name and (package_name + '.').startswith(ex.name + '.'): return None
+            raise                                                           # the package exists, but one of its own imports is missing
+        
+        package_path = getattr(pkg, '__file__', None)
+        if package_path and package_path.endswith('.py'):
+            package_path = os.path.dirname(package_path)                    # truncate /__init__.py part of a package file path
+        return package_path
+
     def _join_path(self, root, path):
         """Convert a python import `path` (with dots) to a file path (with slashes) and append to a root folder's path."""
         
-- 
2.43.0


From 523a84aa828c59c2aa694f1b61842370deb09753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 05/22] fix: load a script only once, whatever type of import
 path is used

---
 src/hypertag/core/runtime.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 153daa8..4195487 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -268,6 +268,7 @@ class HyLoader(Loader):
                 location = self._join_path(ref_root, '.' + path)
                 python_path = self._make_absolute('.' + path, referrer)
 
+        if location in self.cache: return self.cache[location]
         if not location or not os.path.exists(location):
             return None
         
-- 
2.43.0


From 5d51a26cbdebc563263e7edb1a4cd5a3af179046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 06/22] fix: close files of scripts and templates after reading

---
 src/hypertag/core/runtime.py   | 3 ++-
 src/hypertag/django/backend.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 4195487..0be62ea 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -274,7 +274,8 @@ class HyLoader(Loader):
         
         package = python_path.rsplit('.', 1)[0] if python_path else None
         
-        script = open(location).read()
+        with open(location) as f:
+            script = f.read()
         
         module = self.cache[location] = runtime.translate(script, location, package)
         module.location = location
diff --git a/src/hypertag/django/backend.py b/src/hypertag/django/backend.py
index 4058080..225ca94 100644
--- a/src/hypertag/django/backend.py
+++ b/src/hypertag/django/backend.py
@@ -49,7 +49,8 @@ class Hypertag(BaseEngine):
         tried = []
         for template_file in self.iter_template_filenames(template_name):
             try:
-                script = open(template_file, 'rt').read()
+                with open(template_file, 'rt') as f:
+                    script = f.read()
                 return Template(self.engine, script, template_file)
 
             except FileNotFoundError:
-- 
2.43.0


From b2513b92b6993a7ff022c47e29bfc7602ce34c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 07/22] fix: raise ImportErrorEx on cyclic imports of scripts

---
 src/hypertag/core/runtime.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 0be62ea..2ae68af 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -63,6 +63,7 @@ class Module:
     filename = None     # name of the file if this module was loaded from disk; mapped to __file__ inside a script
     package  = None     # Python package path of this module's package, if available; mapped to __package__ inside a script
     symbols  = None     # cached dict of this module's symbols; each symbol has a leading mark % or $
+    referrer = None     # the module whose import block caused this module to be loaded; for detection of cyclic imports
     
     def __init__(self, **kwattrs):
         for attr, value in kwattrs.items():
@@ -272,12 +273,18 @@ class HyLoader(Loader):
         if not location or not os.path.exists(location):
             return None
         
+        # the modules between `referrer` and the top-level script are still being translated, none of them can be imported now
+        loading = referrer
+        while loading is not None:
+            if loading.filename == location: raise ImportErrorEx("cyclic import of '%s' (%s)" % (path, location))
+            loading = loading.referrer
+        
         package = python_path.rsplit('.', 1)[0] if python_path else None
         
         with open(location) as f:
             script = f.read()
         
-        module = self.cache[location] = runtime.translate(script, location, package)
+        module = self.cache[location] = runtime.translate(script, location, package, __referrer__ = referrer)
         module.location = location
         module.package = package
         
@@ -366,14 +373,14 @@ class Runtime:
 
         raise ModuleNotFoundEx("import path not found '%s', try setting __package__ or __file__ when calling render()" % path, ast_node)
         
-    def translate(self, __script__, __file__ = None, __package__ = None, __tags__ = None, **variables):
+    def translate(self, __script__, __file__ = None, __package__ = None, __tags__ = None, __referrer__ = None, **variables):
         """Parse a given script, translate to a DOM tree, and return wrapped up in a HyModule instance."""
         
         builtins = self.import_builtins()
         builtins[VAR('__file__')]    = __file__
         builtins[VAR('__package__')] = __package__
         
-        module = HyModule(runtime = self, script = __script__, filename = __file__, package  = __package__)
+        module = HyModule(runtime = self, script = __script__, filename = __file__, package  = __package__, referrer = __referrer__)
         module.translate(builtins, __tags__, **variables)
         
         return module
-- 
2.43.0


From cb65713bd23d2d04e1cf3c7fee98545747eb1ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 08/22] fix: do not swallow KeyboardInterrupt when a number is
 parsed

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index c8c599c..523df05 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1751,7 +1751,7 @@ class NODES(object):
             try:
                 self.value = int(s)
                 return
-            except: pass
+            except ValueError: pass
             self.value = float(s)
     
     class xboolean(literal):
-- 
2.43.0


From d04aa8d11b3f0f5c748df2689bdde0b9595b0f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 09/22] fix: allow nodes without attributes in DOM selectors by
 attribute

---
 src/hypertag/core/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/dom.py b/src/hypertag/core/dom.py
index 3073649..eb8c321 100644
--- a/src/hypertag/core/dom.py
+++ b/src/hypertag/core/dom.py
@@ -253,7 +253,7 @@ class DOM:
         if name is not None and (node.tag is None or node.tag.name != name): return False
         
         for a, v in attrs.items():
-            if a not in node.kwattrs: return False
+            if not node.kwattrs or a not in node.kwattrs: return False
             if v is not DOM.ATTR_DEFINED and node.kwattrs[a] != v: return False
 
         return True
-- 
2.43.0


From 061b749a4542bc8930c67cb14d8a82973d3fb9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 10/22] fix: embed copies of nodes in @-blocks, so that a DOM
 can be embedded many times

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 523df05..14dcd90 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -511,7 +511,7 @@ class NODES(object):
             
         def translate(self, state):
             body = self.expr.evaluate(state)
-            body = self._as_sequence(body)
+            body = self._as_sequence(body).copy()               # the same nodes can be embedded many times, in places of different indentation
             body.set_indent(state.indentation)                  # set indentation of the fragment to be inserted
             return body
         
-- 
2.43.0


From b503042404842c5edbcd8cd605235767cb50d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 11/22] fix: do not modify the context passed to a Django
 template

---
 src/hypertag/django/backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hypertag/django/backend.py b/src/hypertag/django/backend.py
index 225ca94..16c7dca 100644
--- a/src/hypertag/django/backend.py
+++ b/src/hypertag/django/backend.py
@@ -70,8 +70,7 @@ class Template:
         self.filename = filename
 
     def render(self, context=None, request=None):
-        if context is None:
-            context = {}
+        context = dict(context) if context is not None else {}      # a copy, the caller's dict must not be modified
         if request is not None:
             context['request'] = request
             context['csrf_input'] = csrf_input_lazy(request)
-- 
2.43.0


From 9558101756a7487c7bda195a5438923e7a9aef63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:37 +0000
Subject: [PATCH 12/22] fix: accept a qualifier after an unnamed attribute

---
 src/hypertag/core/ast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 14dcd90..e3f100a 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1248,8 +1248,9 @@ class NODES(object):
             
     class xattr_unnamed(attribute):
         def setup(self):
-            assert len(self.children) == 1
+            assert 1 <= len(self.children) <= 2 and isinstance(self.children[0], NODES.expression)
             self.expr = self.children[0]
+            # there can be a qualifier as self.children[1]; its existence is already taken into account by self.children[0]
             
     class xattr_short(attribute):
         def setup(self):
-- 
2.43.0


From cbfa892d5eda10587081e6d51f6b04f90c275841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:20 +0000
Subject: [PATCH 13/22] fix: do not replace TypeErrors raised during
 translation of a block (PyPy)

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index e3f100a..0c6aace 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -445,7 +445,7 @@ class NODES(object):
             super(NODES.xblock, self).analyse(ctx)
 
         def translate(self, state):
-            margin, block = (c.translate(state) for c in self.children)
+            margin, block = [c.translate(state) for c in self.children]       # a list: PyPy replaces TypeErrors raised inside an unpacked generator
             if not block: return margin
             
             append = (self.modifier == '...')
-- 
2.43.0


From dc9f52a2a46e7b5ecb996875d763a481d16a13c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:30 +0000
Subject: [PATCH 14/22] fix: empty clauses of control blocks never fail

---
 src/hypertag/core/ast.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 0c6aace..742a0ce 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -860,6 +860,8 @@ class NODES(object):
         If all branches fail, including the last one, empty output is rendered (exception from the last branch is NOT re-raised).
         """
         def _select_branch(self, state):
+            if self.children and self.children[0].type == 'clause_else':
+                return DOM(), 0                 # the "try" clause is empty, so it can't fail
             for i, branch in enumerate(self.children):
                 try:
                     body = branch.translate(state)
@@ -901,8 +903,7 @@ class NODES(object):
         
     class xclause_else(node):
         def translate(self, state):
-            assert len(self.children) == 1
-            return self.children[0].translate(state)
+            return self.children[0].translate(state) if self.children else DOM()
         
     class xblock_while(control_block):
         # def _analyse_branches(self, ctx):
-- 
2.43.0


From 6dac7ede24f00770df0e970ca7cd84c61d24fa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:30 +0000
Subject: [PATCH 15/22] fix: analyse the else clause of a for loop, and do not
 take it for the loop's body

---
 src/hypertag/core/ast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 742a0ce..74188f2 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -936,8 +936,8 @@ class NODES(object):
         
         def setup(self):
             self.targets, self.expr = self.children[:2]
-            self.body = self.children[2] if len(self.children) >= 3 else None
             self.else_ = self.children[-1] if self.children[-1].type == 'clause_else' else None
+            self.body = self.children[2] if len(self.children) >= 3 and self.children[2] is not self.else_ else None
             assert isinstance(self.expr, NODES.expression)
             assert self.targets.type == 'targets'
             # assert self.targets.type == 'var', 'Support for multiple targets in <for> not yet implemented'
@@ -946,6 +946,7 @@ class NODES(object):
             self.expr.analyse(ctx)
             self.targets.analyse(ctx)
             if self.body: self.body.analyse(ctx)
+            if self.else_: self.else_.analyse(ctx)
 
         def translate(self, state):
             out = []
-- 
2.43.0


From 56b47e8700bd51e356cf42c9027e70b1f518ddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:05 +0000
Subject: [PATCH 16/22] fix: resolve relative file names of scripts, so that a
 script is not loaded twice under two locations

---
 src/hypertag/core/runtime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index 2ae68af..b5bdd6d 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -230,7 +230,7 @@ class HyLoader(Loader):
         
         # whenever possible, python package path (python_path) of the module is inferred, so that its `package` can be set
         location = python_path = None
-        ref_root = os.path.dirname(referrer.filename) if referrer.filename else None
+        ref_root = os.path.dirname(os.path.abspath(referrer.filename)) if referrer.filename else None
         
         # relative import path is always resolved relative to the referrer's folder
         if path[:1] == '.':
@@ -243,6 +243,7 @@ class HyLoader(Loader):
             # 1. try calling a resolve() function
             if self.resolve:
                 location = self.resolve(path, referrer)
+                if location: location = os.path.abspath(location)
                 if location in self.cache: return self.cache[location]
                 if location and not os.path.exists(location):
                     location = None
@@ -276,7 +277,7 @@ class HyLoader(Loader):
         # the modules between `referrer` and the top-level script are still being translated, none of them can be imported now
         loading = referrer
         while loading is not None:
-            if loading.filename == location: raise ImportErrorEx("cyclic import of '%s' (%s)" % (path, location))
+            if loading.filename and os.path.abspath(loading.filename) == location: raise ImportErrorEx("cyclic import of '%s' (%s)" % (path, location))
             loading = loading.referrer
         
         package = python_path.rsplit('.', 1)[0] if python_path else None
-- 
2.43.0


From a7d174839642b2031d1d7170c97643240b88a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:26 +0000
Subject: [PATCH 17/22] fix: do not swallow KeyboardInterrupt when a list is
 flattened

---
 src/hypertag/nifty/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/nifty/util.py b/src/hypertag/nifty/util.py
index 2b06a7e..8a4b7e7 100755
--- a/src/hypertag/nifty/util.py
+++ b/src/hypertag/nifty/util.py
@@ -235,7 +235,7 @@ def flatten(*seq):
         l = len(seq)
         if l == 0: return []
         if l == 1: seq = seq[0]
-    except: pass
+    except Exception: pass
     
     result = []
     for x in seq:
-- 
2.43.0


From 47480ed0ce98709e9610b97230018b55a397373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 18/22] fix: propagate exceptions raised by an iterable
 embedded with @, do not replace them with TypeErrorEx

---
 src/hypertag/core/ast.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 74188f2..1b8126f 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -519,10 +519,11 @@ class NODES(object):
             if isinstance(body, DOM): return body
             if isinstance(body, DOM.Node): return DOM(body)
             try:
-                body = list(body)
-            except Exception as ex:
+                nodes = iter(body)
+            except TypeError as ex:
                 raise TypeErrorEx("embedded @-expression evaluates to %s instead of a DOM or DOM.Node or an iterable of DOM.Node's" % type(body), self)
-            return DOM(*body)
+            nodes = list(nodes)                                 # an exception raised by the iterator is propagated unchanged
+            return DOM(*nodes)
 
     class xblock_struct(node):
         tags = None         # <tags_expand> node
-- 
2.43.0


From 1d8df02138fa98f274cc9dd42deacc623549645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:17 +0000
Subject: [PATCH 19/22] fix: do not modify a caller's list when several short
 attributes are concatenated

---
 src/hypertag/core/ast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 1b8126f..2e43eb4 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1191,7 +1191,7 @@ class NODES(object):
             for name, expr in self.named:
                 value = expr.evaluate(state)
                 if name in named:
-                    named[name] += ' ' + value       # = '{named[name]} {value}'
+                    named[name] = named[name] + ' ' + value     # no in-place operator: the value can be an object of the caller
                 else:
                     named[name] = value
                     
-- 
2.43.0


From 231ce18141bbd11f818ee885d21d8a1d56f5bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:26 +0000
Subject: [PATCH 20/22] fix: do not evaluate the truth value of an expression
 without a qualifier

---
 src/hypertag/core/ast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 2e43eb4..16d84d4 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -1292,6 +1292,9 @@ class NODES(object):
             """Special variant of evaluate() to be used in these expression nodes that may have a not-None qualifier.
                They should call this method in evaluate() and implement _eval_inner_qualified().
             """
+            if not self.qualifier:                          # no truth test: it's user code too, it can fail or have side effects
+                return self._eval_inner_qualified(state)
+            
             try:
                 val = self._eval_inner_qualified(state)
             except Exception as ex:
-- 
2.43.0


From d8d9692ed176930e1c04ea392bbeca49c63b873a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:26 +0000
Subject: [PATCH 21/22] fix: propagate a TypeError raised by __iter__ of an
 embedded value, do not replace it with TypeErrorEx

---
 src/hypertag/core/ast.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hypertag/core/ast.py b/src/hypertag/core/ast.py
index 16d84d4..b3eb2b0 100644
--- a/src/hypertag/core/ast.py
+++ b/src/hypertag/core/ast.py
@@ -521,6 +521,7 @@ class NODES(object):
             try:
                 nodes = iter(body)
             except TypeError as ex:
+                if hasattr(type(body), '__iter__'): raise       # raised inside __iter__() of the value, not because it's not iterable
                 raise TypeErrorEx("embedded @-expression evaluates to %s instead of a DOM or DOM.Node or an iterable of DOM.Node's" % type(body), self)
             nodes = list(nodes)                                 # an exception raised by the iterator is propagated unchanged
             return DOM(*nodes)
-- 
2.43.0


From 7dcbdc138da5e0b6879d31208db8a4fd4a3d0afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:05 +0000
Subject: [PATCH 22/22] fix: raise RecursionError for too deeply nested scripts
 and recursion in PyPy, do not kill the process

---
 src/hypertag/core/runtime.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hypertag/core/runtime.py b/src/hypertag/core/runtime.py
index b5bdd6d..c6857a8 100644
--- a/src/hypertag/core/runtime.py
+++ b/src/hypertag/core/runtime.py
@@ -1,4 +1,4 @@
-import os, sys, importlib
+import os, sys, importlib, platform
 
 from hypertag.core.errors import ImportErrorEx, ModuleNotFoundEx
 from hypertag.core.grammar import MARK_VAR, MARK_TAG, VAR, TAG, TAGS
@@ -13,8 +13,9 @@ PATH_SEP = os.path.sep
 #####
 
 # set Python's global recursion limit to at least MIN_RECURSION_LIMIT to avoid RecursionError
-# when parsing deeply nested scripts
-MIN_RECURSION_LIMIT = 20000
+# when parsing deeply nested scripts; in PyPy, this limit sets the size of the stack (768 bytes per unit), which must not
+# exceed the actual size (8 MB), otherwise the process is killed by too deep recursion instead of getting RecursionError
+MIN_RECURSION_LIMIT = 20000 if platform.python_implementation() != 'PyPy' else 8000
 sys.setrecursionlimit(max(sys.getrecursionlimit(), MIN_RECURSION_LIMIT))
 
 
-- 
2.43.0

