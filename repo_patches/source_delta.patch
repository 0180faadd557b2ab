From 362a3792fd1a966852cceead425a32cc058e12f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:05 +0000
Subject: [PATCH 01/44] fix: load each included document once and stop circular
 includes

A document including a document that is still loading (directly or through
other documents) recursed until the interpreter ran out of stack, and a
document included by two documents in a project was loaded twice.
---
 src/disseminate/document/document.py | 34 +++++++++++++++++++---------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index a7efe78..854fcc6 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -457,10 +457,14 @@ class Document(object):
         # Get the build environment for the project
         environment = self.context['environment']
 
-        # Get a dict with all documents in a project
-        root_dict = root_document.documents_dict(document=root_document,
-                                                 only_subdocuments=False,
-                                                 recursive=True)
+        # Get the src_filepaths of the documents that (indirectly) include this
+        # document. These may still be loading, in which case they're not
+        # listed in the root document's documents yet.
+        parent_filepaths = []
+        parent_context = self.context.parent_context
+        while parent_context is not None:
+            parent_filepaths.append(parent_context.get('src_filepath', None))
+            parent_context = getattr(parent_context, 'parent_context', None)
 
         # Get a dict with all documents owned by this document. This document
         # can control those documents, but it cannot control other documents in
@@ -479,7 +483,19 @@ class Document(object):
         for src_filepath in src_filepaths:
             # If the src_filepath is the same as this document, do nothing, as
             # a document shouldn't have itself as a subdocument
-            if src_filepath == self.src_filepath:
+            if (src_filepath == self.src_filepath or
+               src_filepath in parent_filepaths):
+                continue
+
+            # Get a dict with all documents in a project. The documents change
+            # as the subdocuments are loaded.
+            root_dict = root_document.documents_dict(document=root_document,
+                                                     only_subdocuments=False,
+                                                     recursive=True)
+
+            # If the document is in the project already, it's controlled by
+            # another document (or it was included twice)
+            if src_filepath in root_dict:
                 continue
 
             # If the document is already loaded and controlled by this
@@ -491,18 +507,14 @@ class Document(object):
                 if self.src_filepath not in subdoc.subdocuments:
                     self.subdocuments[src_filepath] = subdoc
 
-            # The document could not be found, at this point. Create it--as
-            # long as it's not controlled by another document--i.e. it's not
-            # already loaded in root_dict
-            elif src_filepath not in root_dict:
+            # The document could not be found, at this point. Create it.
+            else:
                 subdoc = Document(src_filepath=src_filepath,
                                   environment=environment,
                                   parent_context=self.context,
                                   level=level + 1)
                 self.subdocuments[src_filepath] = subdoc
                 document_loaded |= True
-            else:
-                continue
 
         # Update the subdocuments mtimes to this document's mtime. The
         # sub-document's mtime must updated so that a load_required is not
-- 
2.43.0


From 2e51d0b9711b9aad0339e32f56aba2173cdd89f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:34 +0000
Subject: [PATCH 02/44] fix: do not parse the contents of nested verbatim tags

Tags whose contents are taken literally (@verb, @code...) were parsed for tags
when an enclosing tag, like a paragraph, was processed again.
---
 src/disseminate/tags/receivers/content.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/disseminate/tags/receivers/content.py b/src/disseminate/tags/receivers/content.py
index c094aa2..5a626a5 100644
--- a/src/disseminate/tags/receivers/content.py
+++ b/src/disseminate/tags/receivers/content.py
@@ -68,6 +68,10 @@ def parse_tags(content, context, tag_factory, level=1):
     elif isinstance(content, list):
         return list(map(parse, content))
     elif hasattr(content, 'content'):
+        if not getattr(content, 'process_content', True):
+            # Do not process the contents of tags, like verbatim tags, whose
+            # contents are taken literally
+            return content
         if isinstance(content.content, list):
             content.content = list(map(parse, content.content))
         else:
-- 
2.43.0


From e257d72e4aa077793f184c4fb71f0534c26bbc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:34 +0000
Subject: [PATCH 03/44] fix: set the navigation labels for the targets of all
 documents

Only the targets of the last document in the document tree were used.
---
 src/disseminate/tags/navigation.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/disseminate/tags/navigation.py b/src/disseminate/tags/navigation.py
index ea59049..4c2df73 100644
--- a/src/disseminate/tags/navigation.py
+++ b/src/disseminate/tags/navigation.py
@@ -42,11 +42,7 @@ def set_navigation_labels(root_document):
 
     # Set the prev_labels and next_labels entries in the context of each
     # document
-    for target in targets:
-        if target not in doc_ids_by_target:
-            continue
-        doc_ids = doc_ids_by_target[target]
-
+    for target, doc_ids in doc_ids_by_target.items():
         for document in documents:
             doc_id = document.doc_id
 
-- 
2.43.0


From ff0cef6818cd7eafe72440df92a7e35ef6c2597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:34 +0000
Subject: [PATCH 04/44] fix: render the next and prev tags in LaTeX for tex
 targets

---
 src/disseminate/tags/navigation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/navigation.py b/src/disseminate/tags/navigation.py
index 4c2df73..c5d54f1 100644
--- a/src/disseminate/tags/navigation.py
+++ b/src/disseminate/tags/navigation.py
@@ -109,7 +109,7 @@ class Next(Ref):
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Next, self).html_fmt(cache=cache, **kwargs)
+            return super(Next, self).tex_fmt(cache=cache, **kwargs)
         else:
             return ""
 
@@ -165,7 +165,7 @@ class Prev(Ref):
             cache['label'] = label()  # Dereference. See above.
 
         if 'label' in cache:
-            return super(Prev, self).html_fmt(cache=cache, **kwargs)
+            return super(Prev, self).tex_fmt(cache=cache, **kwargs)
         else:
             return ""
 
-- 
2.43.0


From 25d08f6df78f10fbc387b398c4ae4c2edfac914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:34 +0000
Subject: [PATCH 05/44] fix: keep the class attribute of figures in html

---
 src/disseminate/tags/figs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/tags/figs.py b/src/disseminate/tags/figs.py
index edd859a..50ec8ef 100644
--- a/src/disseminate/tags/figs.py
+++ b/src/disseminate/tags/figs.py
@@ -51,7 +51,7 @@ class BaseFigure(Tag):
         # Set the html class
         if self.html_class is not None:
             if 'class' in attrs:
-                attrs['class'] = ' ' + self.html_class
+                attrs['class'] = attrs['class'] + ' ' + self.html_class
             else:
                 attrs['class'] = self.html_class
         return super().html_fmt(attributes=attrs, method=method, **kwargs)
-- 
2.43.0


From a69140f71115fba73c1073f120fc68063bde46b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 06/44] fix: limit the replacement of macros that include
 themselves

A macro whose content includes itself was replaced until the text
exhausted the memory. The replacement is now limited in depth and
raises a MacroError.
---
 src/disseminate/settings.py     |  3 +++
 src/disseminate/utils/string.py | 21 +++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/settings.py b/src/disseminate/settings.py
index 0ddbdcc..7a233dc 100644
--- a/src/disseminate/settings.py
+++ b/src/disseminate/settings.py
@@ -48,6 +48,9 @@ tag_prefix = r'@'
 #: Maximum depth of tag trees
 tag_max_depth = 30
 
+#: Maximum depth of macros that include other macros
+macro_max_depth = 10
+
 # If True, converted files will be updated only when they're changed. Otherwise
 # converted files will always be updated
 convert_cache = True
diff --git a/src/disseminate/utils/string.py b/src/disseminate/utils/string.py
index f419b53..e099a2b 100644
--- a/src/disseminate/utils/string.py
+++ b/src/disseminate/utils/string.py
@@ -460,6 +460,11 @@ def group_strings(lst):
     return lst
 
 
+class MacroError(Exception):
+    """A macro could not be replaced."""
+    pass
+
+
 _re_macro = regex.compile(r"(?P<macro>" +
                           settings.tag_prefix +  # tag prefix. e.g. '@'
                           r"[\w\.]+)"
@@ -490,9 +495,9 @@ def replace_macros(s, *dicts):
 
     Raises
     ------
-    MacroNotFound
-        Raises a MacroNotFound exception if a macro was included, but it could
-        not be found.
+    MacroError
+        Raises a MacroError exception if the macros are nested too deeply
+        (settings.macro_max_depth), as for macros that include themselves.
     """
     # Replace the values
     def _substitute(m):
@@ -531,10 +536,18 @@ def replace_macros(s, *dicts):
             return str(obj) + ''.join('.' + piece for piece in pieces)
 
     # Return a string with the dicts substituted. Keep substituting until
-    # all dicts are replaced or the string is no longer changing
+    # all dicts are replaced or the string is no longer changing. The number of
+    # substitutions is limited, as macros that include themselves may grow
+    # without end.
     s, num_subs = _re_macro.subn(_substitute, s)
     last_num_subs = 0
+    depth = 0
     while num_subs > 0 and num_subs > last_num_subs:
+        depth += 1
+        if depth >= settings.macro_max_depth:
+            msg = ("The maximum depth of '{}' has been reached in replacing "
+                   "macros. A macro may include itself.")
+            raise MacroError(msg.format(settings.macro_max_depth))
         last_num_subs = num_subs
         s, num_subs = _re_macro.subn(_substitute, s)
 
-- 
2.43.0


From 73db3f43103258a44c9580f4b0d9cd8c0ce3dffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:51 +0000
Subject: [PATCH 07/44] fix: render the content of headings without labels in
 tex

---
 src/disseminate/tags/headings.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/disseminate/tags/headings.py b/src/disseminate/tags/headings.py
index 389e456..ee1e237 100644
--- a/src/disseminate/tags/headings.py
+++ b/src/disseminate/tags/headings.py
@@ -87,6 +87,9 @@ class Heading(Tag, LabelMixin):
         if self.label_tag is not None:
             content += self.label_tag.tex_fmt(mathmode=mathmode,
                                               level=level + 1)
+        else:
+            content += content_to_str(self.content, target='.tex',
+                                      mathmode=mathmode, level=level + 1)
 
         # Format the heading tag. ex: \chapter{Chapter 1. My First Chapter}
         content = tex_cmd(cls_name, attributes=attributes,
-- 
2.43.0


From b8ce12217f3d2936eba0ef025af79ba5188942c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 08/44] fix: report builders with missing requirements as
 inactive

---
 src/disseminate/builders/builder.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 9477a7f..7cdf78b 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -224,9 +224,7 @@ class Builder(metaclass=ABCMeta):
           - 'building': The builder is building
           - 'done': The builder is done building
         """
-        active = self.active
-
-        if not active:
+        if not self.active():
             return "inactive"
 
         if self.missing_parameters:
-- 
2.43.0


From a689808d2c14cc91fdcd8c884a53a0958bf3ae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:08 +0000
Subject: [PATCH 09/44] fix: read the output of build commands while waiting
 for them

---
 src/disseminate/builders/executor.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/builders/executor.py b/src/disseminate/builders/executor.py
index 4c0924d..26ecaac 100644
--- a/src/disseminate/builders/executor.py
+++ b/src/disseminate/builders/executor.py
@@ -19,8 +19,14 @@ def run(timeout, **kwargs):
     """Run the command with the given arguments."""
     popen = subprocess.Popen(**kwargs, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, bufsize=4096,)
-    popen.wait(timeout=timeout)
-    stdout, stderr = popen.communicate()
+    try:
+        # Read the pipes while waiting, so that the process cannot block on a
+        # full pipe
+        stdout, stderr = popen.communicate(timeout=timeout)
+    except subprocess.TimeoutExpired:
+        popen.kill()
+        popen.communicate()
+        raise
     return PopenResult(returncode=popen.returncode,
                        args=popen.args,
                        stdout=stdout.decode('latin1'),
-- 
2.43.0


From 7e6feca0f69fddf8fd0dc1a9c6aa4b2d63fda7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 10/44] fix: keep filenames with spaces as single command
 arguments

---
 src/disseminate/builders/builder.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 7cdf78b..3c6725e 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -26,8 +26,9 @@ class CustomFormatter(Formatter):
     def get_field(self, field_name, args, kwargs):
         field_value, field_name = super().get_field(field_name, args, kwargs)
         if isinstance(field_value, list) or isinstance(field_value, tuple):
-            # Make lists/tuples into space-separated strings
-            field_value = " ".join(self.clean_field(f) for f in field_value)
+            # Make lists/tuples into null-separated strings. The items may
+            # include spaces
+            field_value = "\0".join(self.clean_field(f) for f in field_value)
             return field_value, field_name
         return self.clean_field(field_value), field_name
 
@@ -428,9 +429,12 @@ class Builder(metaclass=ABCMeta):
             A tuple of the arguments to run in a process.
         """
         if isinstance(self.action, str):
+            # Split the action before formatting, so that the formatted
+            # values (ex: filenames with spaces) are not split
             fmt = CustomFormatter()
-            fmt_action = fmt.format(self.action, builder=self)
-            return tuple(fmt_action.split())
+            args = [fmt.format(arg, builder=self).split("\0")
+                    for arg in self.action.split()]
+            return tuple(arg for arg in flatten(args) if arg)
         else:
             return tuple()
 
-- 
2.43.0


From 2ddac741f10cdf766a505599899b9c0e446a4536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 11/44] fix: pass the pdf2svg page number as a string argument

---
 src/disseminate/builders/pdf2svg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/builders/pdf2svg.py b/src/disseminate/builders/pdf2svg.py
index d0d22e4..b928035 100644
--- a/src/disseminate/builders/pdf2svg.py
+++ b/src/disseminate/builders/pdf2svg.py
@@ -33,7 +33,7 @@ class Pdf2svg(Builder):
     def run_cmd_args(self):
         args = list(super().run_cmd_args())
         if isinstance(self.page_no, int):
-            args += [self.page_no]
+            args += [str(self.page_no)]
         return tuple(args)
 
 
-- 
2.43.0


From 61f816ce94d2a805fbfe5f60bc8f5991065a1dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:06 +0000
Subject: [PATCH 12/44] fix: rebuild rendered targets when referenced labels
 change

---
 src/disseminate/builders/jinja_render.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index 996ec2b..b140005 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -185,6 +185,8 @@ class JinjaRender(Builder):
             parameters += sorted(v.hash for v in context.values()
                                  if hasattr(v, 'hash') and v.hash is not None)
 
+        parameters += self.get_parameters_from_signals()
+
         return uniq(parameters)
 
     @parameters.setter
-- 
2.43.0


From 8e4211269952d73ed705895a7ba050ce8deecd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 13/44] fix: accept values that are not strings for context
 entries

---
 src/disseminate/context/context.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/context/context.py b/src/disseminate/context/context.py
index 36b425d..7dd1aac 100644
--- a/src/disseminate/context/context.py
+++ b/src/disseminate/context/context.py
@@ -472,7 +472,7 @@ class BaseContext(dict):
             # For immutable types, like ints, covert strings into their
             # proper format and replace the original's value
             elif isinstance(original_value, bool):
-                change_value_lower = change_value.lower().strip()
+                change_value_lower = str(change_value).lower().strip()
                 if change_value_lower == 'false':
                     self[key] = False
                 elif change_value_lower == 'true':
@@ -481,13 +481,13 @@ class BaseContext(dict):
             elif isinstance(original_value, int):
                 try:
                     self[key] = int(change_value)
-                except ValueError:
+                except (TypeError, ValueError):
                     pass
 
             elif isinstance(original_value, float):
                 try:
                     self[key] = float(change_value)
-                except ValueError:
+                except (TypeError, ValueError):
                     pass
 
             # Otherwise, if the original value's type and change value type
-- 
2.43.0


From 246aca1355bcf7f4e27542bacd94cb48e47c3b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 14/44] fix: only show source files from served directories

---
 src/disseminate/server/handlers/pygmentize.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/disseminate/server/handlers/pygmentize.py b/src/disseminate/server/handlers/pygmentize.py
index 3381b2a..5b05d98 100644
--- a/src/disseminate/server/handlers/pygmentize.py
+++ b/src/disseminate/server/handlers/pygmentize.py
@@ -6,14 +6,31 @@ from pathlib import Path
 from pygments import highlight
 from pygments.lexers import get_lexer_for_filename
 from pygments.formatters import HtmlFormatter
+from tornado.web import HTTPError
 
 from .server import ServerHandler
+from .store import store
 
 
 class PygmentizeHandler(ServerHandler):
     """A handler to pygmentize source files"""
 
+    @staticmethod
+    def is_allowed(filepath):
+        """True if the filepath is in the current directory or in the
+        directories of the loaded projects."""
+        roots = [Path('.')]
+        for doc in store.get('root_documents', []):
+            roots += [doc.project_root, doc.target_root]
+
+        parents = filepath.resolve().parents
+        return any(Path(root).resolve() in parents for root in roots)
+
     def get(self, path):
+        # Do not present files outside the served directories
+        if not self.is_allowed(Path(path)):
+            raise HTTPError(403, "{} is not in a served directory".format(path))
+
         # Get the appropriate lexer
         lexer = get_lexer_for_filename(path, stripall=True)
 
-- 
2.43.0


From 3822e6aa6ae1a9b11a5c5787bb01430a8b6e7f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 15/44] fix: match whole package names in the python checker

---
 src/disseminate/checkers/python.py | 7 +++++--
 src/disseminate/checkers/utils.py  | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/checkers/python.py b/src/disseminate/checkers/python.py
index fa8b461..ac1aebe 100644
--- a/src/disseminate/checkers/python.py
+++ b/src/disseminate/checkers/python.py
@@ -75,8 +75,11 @@ class PythonChecker(Checker):
             name, op, ver = rv
             name = name.lower()
 
-            # See if the package name is available in the freeze tuple
-            matching_packages = [i for i in self.freeze if i.startswith(name)]
+            # See if the package name is available in the freeze tuple. The
+            # whole name has to match, as other packages may start with the
+            # same name
+            matching_packages = [i for i in self.freeze
+                                 if i.split('==')[0] == name]
 
             # If there are no matching packages, return None and do nothing
             # more
diff --git a/src/disseminate/checkers/utils.py b/src/disseminate/checkers/utils.py
index d8744a1..a27dd12 100644
--- a/src/disseminate/checkers/utils.py
+++ b/src/disseminate/checkers/utils.py
@@ -37,7 +37,7 @@ def name_and_version(string):
 
     m = re.search(r'([\w\.\-\_]+)'  # match package name
                   r'\s*(==|>=|<=|>|<|!=)?\s*'  # operator
-                  r'([\d\.]+)?',  # version number
+                  r'(\d+(?:\.\d+)*)?',  # version number
                   string)
 
     if m is None:
-- 
2.43.0


From 51c77c179715046b85599aa2194804af61258b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 16/44] fix: skip missing dependencies when scanning without
 errors

---
 src/disseminate/builders/scanners/scanner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/builders/scanners/scanner.py b/src/disseminate/builders/scanners/scanner.py
index 0d69422..9b400c7 100644
--- a/src/disseminate/builders/scanners/scanner.py
+++ b/src/disseminate/builders/scanners/scanner.py
@@ -112,7 +112,7 @@ class Scanner(object):
                 if not valid_paths and raise_error:
                     msg = "Could not find the file '{}' in paths: '{}'"
                     raise FileNotFoundError(msg.format(stub, test_paths))
-                else:
+                elif valid_paths:
                     new_infilepaths.append(valid_paths[0])
 
         return new_infilepaths
-- 
2.43.0


From 0b8590c25294e610c2800db73805f166c22c8959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:06 +0000
Subject: [PATCH 17/44] fix: use existing toc.xhtml files in epub targets

---
 src/disseminate/builders/target_builders/epub_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/builders/target_builders/epub_builder.py b/src/disseminate/builders/target_builders/epub_builder.py
index 8b0a31f..0b24f2c 100644
--- a/src/disseminate/builders/target_builders/epub_builder.py
+++ b/src/disseminate/builders/target_builders/epub_builder.py
@@ -77,7 +77,7 @@ class EpubBuilder(TargetBuilder):
     def has_toc_xhtml(self, xhtml_filepaths=None):
         """Evaluates whether there is a toc.xhtml file in the xhtml files."""
         xhtml_filepaths = xhtml_filepaths or self.xhtml_filepaths()
-        return any(filepath.subpath == 'toc.xhtml'
+        return any(str(filepath.subpath) == 'toc.xhtml'
                    for filepath in xhtml_filepaths)
 
     def create_toc_xhtml_builder(self, context=None,
-- 
2.43.0


From 4b00fa7557fa0b5da2e37855b4c5ddd3cc0ede77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:40 +0000
Subject: [PATCH 18/44] fix: keep output files of relative paths in the target
 directory

---
 src/disseminate/builders/utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/disseminate/builders/utils.py b/src/disseminate/builders/utils.py
index 90e6629..b24069f 100644
--- a/src/disseminate/builders/utils.py
+++ b/src/disseminate/builders/utils.py
@@ -1,6 +1,7 @@
 """
 Utilities for builders and environments
 """
+import os.path
 import pathlib
 
 from .deciders.utils_hash import hash_items
@@ -162,6 +163,13 @@ def generate_outfilepath(env, parameters, target=None, append=None, ext=None,
     if hasattr(subpath, 'is_absolute') and subpath.is_absolute():
         subpath = pathlib.Path(subpath.name)
 
+    # Remove the leading '..' components, so that the outfilepath stays in the
+    # target directory
+    norm_subpath = pathlib.Path(os.path.normpath(str(subpath)))
+    if '..' in norm_subpath.parts:
+        subpath = pathlib.Path(*[part for part in norm_subpath.parts
+                                 if part != '..'])
+
     # Add media_path, if specified
     if media_path and not str(subpath).startswith(media_path):
         subpath = rename(path=media_path / subpath, append=append,
-- 
2.43.0


From f26bd532d11583913c88593b44f6ced2bac0cfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:14 +0000
Subject: [PATCH 19/44] fix: remove the reference when None is assigned to a
 weakattr

---
 src/disseminate/utils/classes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/utils/classes.py b/src/disseminate/utils/classes.py
index 5738162..fd30576 100644
--- a/src/disseminate/utils/classes.py
+++ b/src/disseminate/utils/classes.py
@@ -135,11 +135,12 @@ class weakattr(object):
         return value() if callable(value) else None
 
     def __set__(self, obj, value):
-        if value is None:  # do nothing is a value of None is assigned
-            return
         weakref_dict = obj.__dict__.setdefault('__weakrefattrs__', dict())
         attrname = self.attrname(obj)
-        weakref_dict[attrname] = weakref.ref(value)
+        if value is None:  # remove the reference if None is assigned
+            weakref_dict.pop(attrname, None)
+        else:
+            weakref_dict[attrname] = weakref.ref(value)
 
     def __delete__(self, obj):
         weakref_dict = obj.__dict__.setdefault('__weakrefattrs__', dict())
-- 
2.43.0


From e629ee15245662d7564cb25bde0aeaf934454211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:14 +0000
Subject: [PATCH 20/44] fix: build the content.opf file without assert
 statements

---
 src/disseminate/builders/xhtml2epub.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/builders/xhtml2epub.py b/src/disseminate/builders/xhtml2epub.py
index eedb186..546ea4e 100644
--- a/src/disseminate/builders/xhtml2epub.py
+++ b/src/disseminate/builders/xhtml2epub.py
@@ -183,7 +183,7 @@ class XHtml2Epub(SequentialBuilder):
 
             # Create a builder for the content.opf
             builder = self.create_opf_builder()
-            assert builder.build(complete=True)
+            builder.build(complete=True)
             arc_name = self.package_subdir / builder.outfilepath.subpath
             epub.write(builder.outfilepath, arcname=arc_name)
 
-- 
2.43.0


From b6d8da8ce00ca5a401b63cc0c4aca95462e100c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:26 +0000
Subject: [PATCH 21/44] fix: register labels in one thread at a time

---
 .../label_manager/label_manager.py            | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/disseminate/label_manager/label_manager.py b/src/disseminate/label_manager/label_manager.py
index ba6d983..d2583da 100644
--- a/src/disseminate/label_manager/label_manager.py
+++ b/src/disseminate/label_manager/label_manager.py
@@ -2,7 +2,7 @@
 The manager for labels.
 """
 from collections import OrderedDict
-from threading import Lock
+from threading import RLock
 
 from .types import ContentLabel, DocumentLabel
 from .exceptions import LabelNotFound, DuplicateLabel
@@ -73,6 +73,7 @@ class LabelManager(object):
     registered = False
 
     def __init__(self, root_context):
+        self._lock = RLock()
         self.labels = OrderedDict()
         self.root_context = root_context
 
@@ -83,20 +84,20 @@ class LabelManager(object):
             return None
 
         # Only 1 thread should register the labels at a time
-        lock = Lock()
-        lock.acquire(blocking=True, timeout=10)
-        context = context or self.root_context
-
-        # Run the registration functions.
-        for func in (register_orders,  # Register label 'order' attribute
-                     register_content_labels,  # Set chapter/section attributes
-                     ):
-            func(labels=self.labels, root_context=context)
-
-        # Labels have been registered. Release the lock
-        self.registered = True
-        if lock.locked():
-            lock.release()
+        with self._lock:
+            # See if another thread has registered the labels while waiting
+            if self.registered:
+                return None
+            context = context or self.root_context
+
+            # Run the registration functions.
+            for func in (register_orders,  # Register label 'order' attribute
+                         register_content_labels,  # Set chapter attributes
+                         ):
+                func(labels=self.labels, root_context=context)
+
+            # Labels have been registered.
+            self.registered = True
 
     def reset(self, doc_ids=None):
         """Reset the the labels.
-- 
2.43.0


From c38c45c07ae24f179b473705d3f950b61021e540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:28 +0000
Subject: [PATCH 22/44] fix: keep text verbatim in LaTeX when it has all of the
 delimiters

---
 src/disseminate/formats/tex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/formats/tex.py b/src/disseminate/formats/tex.py
index d56ee94..303cb26 100644
--- a/src/disseminate/formats/tex.py
+++ b/src/disseminate/formats/tex.py
@@ -203,4 +203,8 @@ def tex_verb(formatted_content):
         return "\\verb!" + formatted_content + "!"
     elif '^' not in formatted_content:
         return "\\verb^" + formatted_content + "^"
-    return formatted_content
+
+    # All of the delimiters are used in the contents. Split the contents so
+    # that each piece is still verbatim
+    return "\\verb!|!".join("\\verb|" + piece + "|"
+                            for piece in formatted_content.split("|"))
-- 
2.43.0


From f4461f2df0b49aad079ab8e3b15a218299b8c5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:29 +0000
Subject: [PATCH 23/44] fix: render references in the default format

---
 src/disseminate/tags/ref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index c8ec6ec..46680ca 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -224,8 +224,8 @@ class Ref(Tag):
 
         if all(i is not None for i in (label_manager, label, context)):
             # Format the format string keys for a ref
-            keys = ('ref', *label.kinds)
-            format_str = label_manager.format_string(id=self.label.id, *keys)
+            keys = ('ref', *label.kind)
+            format_str = label_manager.format_string(label.id, *keys)
 
             processed_tag = Tag(name='ref', content=format_str, attributes='',
                                 context=context)
-- 
2.43.0


From 7221297215211d5a10351d9a80279cc5ebd067d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:08 +0000
Subject: [PATCH 24/44] fix: keep the class attribute of lists in html

---
 src/disseminate/tags/list.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/disseminate/tags/list.py b/src/disseminate/tags/list.py
index 4838b9c..171f3ec 100644
--- a/src/disseminate/tags/list.py
+++ b/src/disseminate/tags/list.py
@@ -240,6 +240,7 @@ class List(Tag):
 
     def html_fmt(self, content=None, attributes=None, format_func='html_fmt',
                  method='html', level=1, **kwargs):
+        attributes = attributes if attributes is not None else self.attributes
         elements = []
 
         for tag in self.content:
-- 
2.43.0


From e9c8460c3fa7433a829d008544df5ff38fdacf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:57 +0000
Subject: [PATCH 25/44] fix: list a document once when nested documents include
 it too

---
 src/disseminate/document/document.py | 32 +++++++++++-----------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/src/disseminate/document/document.py b/src/disseminate/document/document.py
index 854fcc6..bd7e05b 100644
--- a/src/disseminate/document/document.py
+++ b/src/disseminate/document/document.py
@@ -457,14 +457,15 @@ class Document(object):
         # Get the build environment for the project
         environment = self.context['environment']
 
-        # Get the src_filepaths of the documents that (indirectly) include this
-        # document. These may still be loading, in which case they're not
+        # Get the documents that (indirectly) include this document. These may
+        # still be loading, in which case they and their documents are not
         # listed in the root document's documents yet.
-        parent_filepaths = []
+        documents = [self, root_document]
         parent_context = self.context.parent_context
         while parent_context is not None:
-            parent_filepaths.append(parent_context.get('src_filepath', None))
+            documents.append(getattr(parent_context, 'document', None))
             parent_context = getattr(parent_context, 'parent_context', None)
+        documents = [doc for doc in documents if doc is not None]
 
         # Get a dict with all documents owned by this document. This document
         # can control those documents, but it cannot control other documents in
@@ -481,26 +482,17 @@ class Document(object):
         src_filepaths = self.context.includes
 
         for src_filepath in src_filepaths:
-            # If the src_filepath is the same as this document, do nothing, as
-            # a document shouldn't have itself as a subdocument
-            if (src_filepath == self.src_filepath or
-               src_filepath in parent_filepaths):
-                continue
-
-            # Get a dict with all documents in a project. The documents change
-            # as the subdocuments are loaded.
-            root_dict = root_document.documents_dict(document=root_document,
-                                                     only_subdocuments=False,
-                                                     recursive=True)
-
-            # If the document is in the project already, it's controlled by
-            # another document (or it was included twice)
-            if src_filepath in root_dict:
+            # If the document is in the project already, it's this document, it
+            # includes this document or it's controlled by another document (or
+            # it was included twice). The documents change as the subdocuments
+            # are loaded.
+            if any(src_filepath in doc.documents_dict(recursive=True)
+                   for doc in documents):
                 continue
 
             # If the document is already loaded and controlled by this
             # document, copy it to the subdocuments ordered dict
-            elif src_filepath in subs_dict:
+            if src_filepath in subs_dict:
                 subdoc = subs_dict[src_filepath]
                 document_loaded |= subdoc.load(level=level + 1)
 
-- 
2.43.0


From 36457160c0c40d2f3631345b52136b6744f4de5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:26 +0000
Subject: [PATCH 26/44] fix: render documents again when the headers they use
 change

---
 src/disseminate/builders/builder.py      | 10 +++++++---
 src/disseminate/builders/jinja_render.py | 18 ++++++++++++++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/builders/builder.py b/src/disseminate/builders/builder.py
index 3c6725e..e332a1f 100644
--- a/src/disseminate/builders/builder.py
+++ b/src/disseminate/builders/builder.py
@@ -278,12 +278,16 @@ class Builder(metaclass=ABCMeta):
         if self.decision is None:
             decider = self.env.decider
             self.decision = decider.decision
+        return self.decision.build_needed(inputs=self.build_inputs(),
+                                          output=self.outfilepath,
+                                          reset=reset)
+
+    def build_inputs(self):
+        """The list of inputs used to decide whether a build is needed."""
         inputs = list(self.parameters)
         if self.action:
             inputs.append(self.action)
-        return self.decision.build_needed(inputs=inputs,
-                                          output=self.outfilepath,
-                                          reset=reset)
+        return inputs
 
     @property
     def parameters(self):
diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index b140005..f7bbfaf 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -193,6 +193,24 @@ class JinjaRender(Builder):
     def parameters(self, value):
         self._parameters = value
 
+    def build_inputs(self):
+        """The list of inputs used to decide whether a build is needed.
+
+        The rendered file also depends on the entries in the context, which
+        are loaded from the headers of the source files for the document and
+        the parent documents.
+        """
+        inputs = super().build_inputs()
+        context = self.context
+
+        # Add the source files
+        while context is not None:
+            src_filepath = context.get('src_filepath', None)
+            if src_filepath is not None and src_filepath.is_file():
+                inputs.append(src_filepath)
+            context = getattr(context, 'parent_context', None)
+        return inputs
+
     @property
     def outfilepath(self):
         outfilepath = self._outfilepath
-- 
2.43.0


From ddacb76a99ea29040418155bcce2822abde9cad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:26 +0000
Subject: [PATCH 27/44] fix: render documents again when the code and data
 files they show change

---
 src/disseminate/builders/jinja_render.py | 10 +++++++++-
 src/disseminate/tags/code.py             |  4 ++++
 src/disseminate/tags/data.py             |  4 ++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index f7bbfaf..b35aded 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -12,6 +12,7 @@ from .exceptions import BuildError
 from .utils import generate_mock_parameters, generate_outfilepath
 from ..paths import SourcePath
 from ..paths.utils import find_file
+from ..tags import Tag
 from ..utils.list import uniq
 from ..utils.classes import weakattr
 from .. import settings
@@ -198,11 +199,18 @@ class JinjaRender(Builder):
 
         The rendered file also depends on the entries in the context, which
         are loaded from the headers of the source files for the document and
-        the parent documents.
+        the parent documents, and on the tags and labels in the context.
         """
         inputs = super().build_inputs()
         context = self.context
 
+        if context is not None:
+            # Add the hashes for all tags
+            inputs += [tag.hash for value in context.values()
+                       if isinstance(value, Tag)
+                       for tag in value.flatten(filter_tags=True)
+                       if tag.hash is not None]
+
         # Add the source files
         while context is not None:
             src_filepath = context.get('src_filepath', None)
diff --git a/src/disseminate/tags/code.py b/src/disseminate/tags/code.py
index ec60a93..21b1acd 100644
--- a/src/disseminate/tags/code.py
+++ b/src/disseminate/tags/code.py
@@ -8,6 +8,7 @@ from .tag import Tag
 from .utils import content_to_str
 from ..utils.types import StringPositionalValue
 from ..paths.utils import find_files
+from ..utils.string import hashtxt
 from ..formats import xhtml_tag, tex_verb
 
 
@@ -33,6 +34,9 @@ class Code(Tag):
             new_content = "\n".join([file.read_text() for file in files])
             self.content = new_content
 
+            # The hash depends on the contents of the files
+            self.hash = hashtxt(new_content)
+
     @property
     def lexer(self):
         """Get the lexer for code highlighting."""
diff --git a/src/disseminate/tags/data.py b/src/disseminate/tags/data.py
index 60b3da5..7cd02f4 100644
--- a/src/disseminate/tags/data.py
+++ b/src/disseminate/tags/data.py
@@ -8,6 +8,7 @@ from collections import OrderedDict
 from .tag import Tag
 from .utils import format_content
 from ..utils.list import transpose
+from ..utils.string import hashtxt
 from ..paths.utils import load_io_stream
 from ..formats.xhtml import xhtml_tag
 from ..formats.tex import tex_cmd
@@ -65,6 +66,9 @@ class Data(Tag):
         # Load the content
         self.load(content)
 
+        # The hash depends on the loaded data, which may come from a file
+        self.hash = hashtxt(repr(self.data))
+
     @abc.abstractmethod
     def load(self, filepath_or_buffer):
         """Load the dataframe from a filepath or a string buffer.
-- 
2.43.0


From ea4489c2453df5217bf13ee48566e5e4fbc9f6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:26 +0000
Subject: [PATCH 28/44] fix: render documents again when the labels they show
 change

---
 src/disseminate/builders/jinja_render.py      | 10 +++++-
 .../builders/target_builders/epub_builder.py  |  6 ++--
 .../target_builders/target_builder.py         |  3 ++
 .../label_manager/types/document_label.py     |  3 ++
 src/disseminate/tags/navigation.py            | 12 ++++++-
 src/disseminate/tags/ref.py                   | 16 ++++++++++
 src/disseminate/tags/toc.py                   | 32 ++++++++++++++++---
 7 files changed, 73 insertions(+), 9 deletions(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index b35aded..d82f268 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -12,8 +12,9 @@ from .exceptions import BuildError
 from .utils import generate_mock_parameters, generate_outfilepath
 from ..paths import SourcePath
 from ..paths.utils import find_file
+from ..signals import signal
 from ..tags import Tag
-from ..utils.list import uniq
+from ..utils.list import uniq, flatten
 from ..utils.classes import weakattr
 from .. import settings
 
@@ -102,6 +103,8 @@ class JinjaRender(Builder):
 
     render_ext = None
 
+    inputs_from_signals = None
+
     def __init__(self, env, context, render_ext=None, **kwargs):
         super().__init__(env, **kwargs)
 
@@ -211,6 +214,11 @@ class JinjaRender(Builder):
                        for tag in value.flatten(filter_tags=True)
                        if tag.hash is not None]
 
+            # Add the labels
+            if self.inputs_from_signals is not None:
+                sig = signal(self.inputs_from_signals)
+                inputs += flatten(sig.emit(builder=self))
+
         # Add the source files
         while context is not None:
             src_filepath = context.get('src_filepath', None)
diff --git a/src/disseminate/builders/target_builders/epub_builder.py b/src/disseminate/builders/target_builders/epub_builder.py
index 0b24f2c..cd4088f 100644
--- a/src/disseminate/builders/target_builders/epub_builder.py
+++ b/src/disseminate/builders/target_builders/epub_builder.py
@@ -120,12 +120,14 @@ class EpubBuilder(TargetBuilder):
         # If no toc entries are present in the toc tag, modify the toc tag to
         # return entries to the documents in the document tree. This is because
         # epub docs require at least 1 reference
-        if len(toc.get_labels()) == 0:
-            toc.toc_kind = ('all', 'documents', 'expanded')
+        toc.empty_toc_kind = ('all', 'documents', 'expanded')
 
         builder = builder_cls(env=self.env, context=render_context,
                               outfilepath=outfilepath, render_ext='.xhtml',
                               use_media=False, use_cache=True, target='xhtml')
+
+        # Add the label dependencies for the toc
+        builder.inputs_from_signals = 'render_dependencies'
         return builder
 
     def create_subbuilders(self):
diff --git a/src/disseminate/builders/target_builders/target_builder.py b/src/disseminate/builders/target_builders/target_builder.py
index 1b988cc..0be3d81 100644
--- a/src/disseminate/builders/target_builders/target_builder.py
+++ b/src/disseminate/builders/target_builders/target_builder.py
@@ -126,6 +126,9 @@ class TargetBuilder(SequentialBuilder):
             # Add ref label dependencies
             render_builder.parameters_from_signals = 'ref_label_dependencies'
 
+            # Add the other label dependencies for the rendered file
+            render_builder.inputs_from_signals = 'render_dependencies'
+
             subbuilders.append(render_builder)
             self._render_builder = render_builder
 
diff --git a/src/disseminate/label_manager/types/document_label.py b/src/disseminate/label_manager/types/document_label.py
index 04f0dae..f6a0d28 100644
--- a/src/disseminate/label_manager/types/document_label.py
+++ b/src/disseminate/label_manager/types/document_label.py
@@ -9,3 +9,6 @@ class DocumentLabel(Label):
     def __init__(self, doc_id, id, kind, title, order=None):
         super().__init__(doc_id=doc_id, id=id, kind=kind, order=order)
         self.title = title
+
+    def __repr__(self):
+        return super().__repr__(title=self.title)
diff --git a/src/disseminate/tags/navigation.py b/src/disseminate/tags/navigation.py
index c5d54f1..9ef5ac9 100644
--- a/src/disseminate/tags/navigation.py
+++ b/src/disseminate/tags/navigation.py
@@ -8,7 +8,7 @@ from itertools import groupby
 from markupsafe import escape
 
 from .tag import Tag
-from .ref import Ref
+from .ref import Ref, render_dependencies
 from ..signals import signal
 
 
@@ -74,6 +74,16 @@ def set_navigation_labels(root_document):
                         del document.context[key]
 
 
+@render_dependencies.connect_via(order=3000)
+def add_navigation_labels(builder, **kwargs):
+    """Add the labels for the previous and next documents, which are set by
+    set_navigation_labels."""
+    labels = [value() for key, value in builder.context.items()
+              if isinstance(key, str) and key.startswith(('prev_', 'next_'))
+              and isinstance(value, weakref.ref)]
+    return [label for label in labels if label is not None]
+
+
 class Next(Ref):
     """Produces links to the next document.
 
diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 46680ca..6ae9d87 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -10,6 +10,7 @@ from ..formats import xhtml_tag, tex_cmd
 
 
 ref_label_dependencies = signal("ref_label_dependencies")
+render_dependencies = signal("render_dependencies")
 
 
 @ref_label_dependencies.connect_via(order=1000)
@@ -40,6 +41,21 @@ def add_ref_labels(builder, **kwargs):
         return []
 
 
+@render_dependencies.connect_via(order=2000)
+def add_document_labels(builder, **kwargs):
+    """Add the content labels for the context's document. The numbers of these
+    labels depend on the labels in other documents."""
+    context = builder.context
+    label_man = context.get('label_manager')
+    doc_id = context.get('doc_id')
+
+    if label_man is not None and doc_id is not None:
+        return [label for label in label_man.get_labels_by_kind(doc_id=doc_id)
+                if not isinstance(label, DocumentLabel)]
+    else:
+        return []
+
+
 class RefError(Exception):
     """A reference to a document could not be found."""
     pass
diff --git a/src/disseminate/tags/toc.py b/src/disseminate/tags/toc.py
index ac275b7..46c9720 100644
--- a/src/disseminate/tags/toc.py
+++ b/src/disseminate/tags/toc.py
@@ -2,12 +2,26 @@
 Formatting of Table of Contents for documents
 """
 from .headings import toc_levels as heading_toc_levels, Heading
-from .ref import Ref
+from .ref import Ref, render_dependencies
 from .tag import Tag
 from . import exceptions
 from ..formats import xhtml_tag, xhtml_list
 
 
+@render_dependencies.connect_via(order=1000)
+def add_toc_labels(builder, **kwargs):
+    """Find and add the labels listed by the Toc tags in the context."""
+    context = builder.context
+
+    labels = []
+    if context.get('label_manager') is not None:
+        for tag in filter(lambda t: isinstance(t, Tag), context.values()):
+            for toc in tag.flatten(filter_tags=True):
+                if isinstance(toc, Toc):
+                    labels += toc.get_labels()
+    return labels
+
+
 class TocError(Exception):
     """An error was encountered while processing a table of contents tag."""
     pass
@@ -74,6 +88,7 @@ class Toc(Tag):
 
     active = True
     toc_kind = None
+    empty_toc_kind = None  # The toc_kind to use if toc_kind gives no labels
     toc_elements = None
     header_tag = None
 
@@ -118,6 +133,13 @@ class Toc(Tag):
         labels : List[:obj:`.label_manager.types.Label`]
             The labels referenced by this TOC.
         """
+        labels = self.get_labels_by_toc_kind(self.toc_kind)
+        if len(labels) == 0 and self.empty_toc_kind is not None:
+            labels = self.get_labels_by_toc_kind(self.empty_toc_kind)
+        return labels
+
+    def get_labels_by_toc_kind(self, toc_kind):
+        """Get the labels for the given toc_kind."""
         assert self.context.is_valid('label_manager')
 
         # If 'all' is specified in the toc_kind, then all documents should be
@@ -127,20 +149,20 @@ class Toc(Tag):
         # only for this document and its context from the 'get_labels_by_kind'
         # method of the label manager.
         context = self.context
-        doc_id = context.get('doc_id') if 'all' not in self.toc_kind else None
+        doc_id = context.get('doc_id') if 'all' not in toc_kind else None
         label_manager = self.context['label_manager']
 
         labels = []
-        if 'heading' in self.toc_kind or 'headings' in self.toc_kind:
+        if 'heading' in toc_kind or 'headings' in toc_kind:
             labels += label_manager.get_labels_by_kind(doc_id=doc_id,
                                                        kinds='heading')
-        if 'document' in self.toc_kind or 'documents' in self.toc_kind:
+        if 'document' in toc_kind or 'documents' in toc_kind:
             labels += label_manager.get_labels_by_kind(doc_id=doc_id,
                                                        kinds='document')
 
         # Now filter apply additional filters
         doc_id = context.get('doc_id')
-        if 'abbreviated' in self.toc_kind:
+        if 'abbreviated' in toc_kind:
             current_doc_id = None
             filtered_labels = []
 
-- 
2.43.0


From 046ddd11a9e07a9e1787043611892b6c130ee983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:26 +0000
Subject: [PATCH 29/44] fix: create epub files again when the files they
 contain change

---
 src/disseminate/builders/xhtml2epub.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/builders/xhtml2epub.py b/src/disseminate/builders/xhtml2epub.py
index 546ea4e..29951c2 100644
--- a/src/disseminate/builders/xhtml2epub.py
+++ b/src/disseminate/builders/xhtml2epub.py
@@ -79,6 +79,21 @@ class XHtml2Epub(SequentialBuilder):
     def parameters(self, value):
         SequentialBuilder.parameters.fset(self, value)
 
+    @property
+    def status(self):
+        status = SequentialBuilder.status.fget(self)
+
+        # The epub file should be created again when the files it contains
+        # have changed, even if the subbuilders are done.
+        if status == 'done':
+            if self.missing_parameters:
+                return "missing (parameters)"
+
+            self.scan_parameters()
+            if self.build_needed():
+                return 'ready'
+        return status
+
     def create_opf_builder(self, template_name='default/xhtml/content.opf'):
         """Create a render builder for the content.opf file.
 
@@ -157,7 +172,8 @@ class XHtml2Epub(SequentialBuilder):
         self.scan_parameters()
 
         # Build subbuilders first
-        super().build(complete=complete)
+        for subbuilder in self.subbuilders:
+            subbuilder.build(complete=True)
 
         context = self.context
         outfilepath = self.outfilepath
-- 
2.43.0


From db4573645a1ae8f61123a9a663156abdbfc4e805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:26 +0000
Subject: [PATCH 30/44] fix: build images again when their files change

---
 .../builders/target_builders/target_builder.py      |  3 +++
 src/disseminate/tags/img.py                         | 13 +++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/disseminate/builders/target_builders/target_builder.py b/src/disseminate/builders/target_builders/target_builder.py
index 0be3d81..c4661dd 100644
--- a/src/disseminate/builders/target_builders/target_builder.py
+++ b/src/disseminate/builders/target_builders/target_builder.py
@@ -115,6 +115,9 @@ class TargetBuilder(SequentialBuilder):
         # Add a parallel builder for dependencies
         if self.add_parallel_builder:
             parallel_builder = ParallelBuilder(env=env, **kwargs)
+
+            # Keep the builders, since these dependencies may change later
+            parallel_builder.clear_done = False
             subbuilders.append(parallel_builder)
             self._parallel_builder = parallel_builder
 
diff --git a/src/disseminate/tags/img.py b/src/disseminate/tags/img.py
index 2a14a61..a19fb60 100644
--- a/src/disseminate/tags/img.py
+++ b/src/disseminate/tags/img.py
@@ -10,6 +10,19 @@ from ..paths.utils import find_files
 from ..formats import tex_cmd
 
 add_file = signal('add_file')
+render_dependencies = signal('render_dependencies')
+
+
+@render_dependencies.connect_via(order=4000)
+def add_image_files(builder, **kwargs):
+    """Find and add the image files for the Img tags in the context. When these
+    change, their builds are added again by the render."""
+    filepaths = []
+    for tag in filter(lambda t: isinstance(t, Tag), builder.context.values()):
+        filepaths += [img.content_as_filepath()
+                      for img in tag.flatten(filter_tags=True)
+                      if isinstance(img, Img)]
+    return [filepath for filepath in filepaths if filepath is not None]
 
 
 class ImgFileNotFound(TagError):
-- 
2.43.0


From ca3c3af753dda1c50891e3edc83f59fa520787ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:18 +0000
Subject: [PATCH 31/44] fix: keep the hash in the names of files from documents
 with a dot in their name

---
 src/disseminate/builders/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/disseminate/builders/utils.py b/src/disseminate/builders/utils.py
index b24069f..d74714d 100644
--- a/src/disseminate/builders/utils.py
+++ b/src/disseminate/builders/utils.py
@@ -78,11 +78,12 @@ def generate_mock_parameters(env, parameters, project_root=None, subpath=None,
 
     # Generate a filename with the hash
     filename = "_".join(filter(bool, [filename, hash_value]))  # Remove None
-    filename = pathlib.Path(filename)
 
-    # Set the extension, if specified
+    # Set the extension, if specified. This is added to the filename, since the
+    # text after the last period in the filename includes the hash.
     if ext:
-        filename = filename.with_suffix(ext)
+        filename += ext
+    filename = pathlib.Path(filename)
 
     if subpath:
         return SourcePath(project_root=project_root,
-- 
2.43.0


From bcf8fbf9bfe387dd64951c4d75669aa1632932ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:58 +0000
Subject: [PATCH 32/44] fix: escape the titles in xhtml and opf files

---
 src/disseminate/builders/jinja_render.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/disseminate/builders/jinja_render.py b/src/disseminate/builders/jinja_render.py
index d82f268..99b6d9e 100644
--- a/src/disseminate/builders/jinja_render.py
+++ b/src/disseminate/builders/jinja_render.py
@@ -122,7 +122,8 @@ class JinjaRender(Builder):
             dl = jinja2.PackageLoader('disseminate', 'templates')
 
             # Create the environment
-            ae = jinja2.select_autoescape(['html', 'htm', 'xml'])
+            ae = jinja2.select_autoescape(['html', 'htm', 'xml', 'xhtml',
+                                           'opf'])
             env = jinja2.Environment(autoescape=ae, loader=dl,
                                      keep_trailing_newline=True,)
             env.filters['rewrite_path'] = rewrite_path
-- 
2.43.0


From b2f2de46ae441a463008fbb9640972861c7947f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:38 +0000
Subject: [PATCH 33/44] fix: use a third of the width for widths of 34%

---
 src/disseminate/tags/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/utils.py b/src/disseminate/tags/utils.py
index e742e5a..d54a448 100644
--- a/src/disseminate/tags/utils.py
+++ b/src/disseminate/tags/utils.py
@@ -238,7 +238,7 @@ def tex_percentwidth(attributes, target='.tex', use_positional=False):
                74: (67, 75),
                65: (50, 67),
                49: (34, 50),
-               32: (25, 33),
+               32: (25, 34),
                24: (0, 25)}
 
     fit_percent_width = None
@@ -307,7 +307,7 @@ def xhtml_percentwidth(attributes, target='.html'):
                'w75': (67, 75),
                'w66': (50, 67),
                'w50': (34, 50),
-               'w33': (25, 33),
+               'w33': (25, 34),
                'w25': (0, 25)}
 
     for html_class, (range_min, range_max) in windows.items():
-- 
2.43.0


From 365389dd521842b31f58cd00b85363dcc8e27a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:38 +0000
Subject: [PATCH 34/44] fix: html_tag called itself endlessly

---
 src/disseminate/formats/xhtml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/formats/xhtml.py b/src/disseminate/formats/xhtml.py
index e1582cc..2cde624 100644
--- a/src/disseminate/formats/xhtml.py
+++ b/src/disseminate/formats/xhtml.py
@@ -19,7 +19,7 @@ class XHtmlFormatError(FormattingError):
 
 
 def html_tag(*args, **kwargs):
-    return html_tag(*args, **kwargs, method='html')
+    return xhtml_tag(*args, **kwargs, method='html')
 
 
 def xml_tag(*args, **kwargs):
-- 
2.43.0


From 668bc0c044df7be286e17f328a0cb513b8c5e9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:25 +0000
Subject: [PATCH 35/44] fix: list the png images of epub files in their
 manifest

---
 src/disseminate/builders/xhtml2epub.py              | 1 +
 src/disseminate/templates/default/xhtml/content.opf | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/disseminate/builders/xhtml2epub.py b/src/disseminate/builders/xhtml2epub.py
index 29951c2..195811d 100644
--- a/src/disseminate/builders/xhtml2epub.py
+++ b/src/disseminate/builders/xhtml2epub.py
@@ -120,6 +120,7 @@ class XHtml2Epub(SequentialBuilder):
         render_context['template'] = template_name
         render_context['xhtml_files'] = self.filepath_dict_list(fps, '.xhtml')
         render_context['svg_files'] = self.filepath_dict_list(fps, '.svg')
+        render_context['png_files'] = self.filepath_dict_list(fps, '.png')
         render_context['css_files'] = self.filepath_dict_list(fps, '.css')
 
         # Add required entries, if not present
diff --git a/src/disseminate/templates/default/xhtml/content.opf b/src/disseminate/templates/default/xhtml/content.opf
index a0a5c4f..9e9c35e 100644
--- a/src/disseminate/templates/default/xhtml/content.opf
+++ b/src/disseminate/templates/default/xhtml/content.opf
@@ -63,6 +63,11 @@
           id="{{ file.id }}"
           media-type="image/svg+xml"/>
     {%- endfor %}
+    {%- for file in png_files %}
+    <item href="{{ file.subpath }}"
+          id="{{ file.id }}"
+          media-type="image/png"/>
+    {%- endfor %}
   </manifest>
   <spine>
     <!-- The default reading order of elements -->
-- 
2.43.0


From 3175203d0dd2fb20f26dc36ed25d7857ea84e5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:13 +0000
Subject: [PATCH 36/44] fix: render the error page of failed commands in the
 server

---
 src/disseminate/templates/server/500.html | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/templates/server/500.html b/src/disseminate/templates/server/500.html
index bda2487..1ea33fc 100644
--- a/src/disseminate/templates/server/500.html
+++ b/src/disseminate/templates/server/500.html
@@ -31,9 +31,9 @@
     <h4>Return code</h4>
     <div class="subbox">{{ exc.returncode }}</div>
     <h4>Shell output</h4>
-    <div class="subbox">{{ exc.shell_out | replace("\n", "<br/>") }}</div>
+    <div class="subbox">{% for line in (exc.shell_out or "").splitlines() %}{{ line }}<br/>{% end %}</div>
     <h4>Shell error</h4>
-    <div class="subbox">{{ exc.shell_err | replace("\n", "<br/>") }}</div>
+    <div class="subbox">{% for line in (exc.shell_err or "").splitlines() %}{{ line }}<br/>{% end %}</div>
   </div>
   {% end %}
 {% end %}
\ No newline at end of file
-- 
2.43.0


From 5ccad6e34a3b1bd0226f7b3ba638f69852768d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:36 +0000
Subject: [PATCH 37/44] fix: add the LaTeX and epub templates of novels that
 their starters use

---
 src/disseminate/templates/books/novel/tex/template.tex     | 4 ++++
 .../templates/books/novel/xhtml/media/css/novel.css        | 1 +
 src/disseminate/templates/books/novel/xhtml/template.xhtml | 7 +++++++
 3 files changed, 12 insertions(+)
 create mode 100644 src/disseminate/templates/books/novel/tex/template.tex
 create mode 120000 src/disseminate/templates/books/novel/xhtml/media/css/novel.css
 create mode 100644 src/disseminate/templates/books/novel/xhtml/template.xhtml

diff --git a/src/disseminate/templates/books/novel/tex/template.tex b/src/disseminate/templates/books/novel/tex/template.tex
new file mode 100644
index 0000000..f4ba874
--- /dev/null
+++ b/src/disseminate/templates/books/novel/tex/template.tex
@@ -0,0 +1,4 @@
+{%- extends "default/tex/template.tex" %}
+{%- block class %}
+\documentclass[12pt]{book}
+{%- endblock %}
diff --git a/src/disseminate/templates/books/novel/xhtml/media/css/novel.css b/src/disseminate/templates/books/novel/xhtml/media/css/novel.css
new file mode 120000
index 0000000..1cd5b97
--- /dev/null
+++ b/src/disseminate/templates/books/novel/xhtml/media/css/novel.css
@@ -0,0 +1 @@
+../../../html/media/css/novel.css
\ No newline at end of file
diff --git a/src/disseminate/templates/books/novel/xhtml/template.xhtml b/src/disseminate/templates/books/novel/xhtml/template.xhtml
new file mode 100644
index 0000000..9da27d6
--- /dev/null
+++ b/src/disseminate/templates/books/novel/xhtml/template.xhtml
@@ -0,0 +1,7 @@
+{%- extends "default/xhtml/template.xhtml" %}
+{%- block extra_css %}
+  <link rel="stylesheet" href="{{ "/media/css/novel.css" | rewrite_path }}"/>
+{%- endblock %}
+{%- block body %}
+  {{ body.xhtml }}
+{%- endblock %}
-- 
2.43.0


From 7884e0557631cdc9595bcbb4706988fd7558895e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:24 +0000
Subject: [PATCH 38/44] fix: find positional attributes of the target, or of no
 target, only

---
 src/disseminate/attributes/attributes.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/disseminate/attributes/attributes.py b/src/disseminate/attributes/attributes.py
index 2fdfdbf..db388b6 100644
--- a/src/disseminate/attributes/attributes.py
+++ b/src/disseminate/attributes/attributes.py
@@ -255,19 +255,19 @@ class Attributes(dict):
             # ex: StringPositionalValue
             items = [(k, v) for k, v in self.items() if ispositional(v, attr)]
 
-            if target:
-                # Filter by target, if specific
-                target_items = [(k, v) for k, v in items if k.endswith(target)]
-            else:
-                # Otherwise remove entries that have target-specific
-                target_items = [(k, v) for k, v in items
-                                if not is_target_specific(k, sep=sep)]
+            # Filter by target, if specific
+            target_items = [(k, v) for k, v in items
+                            if target and k.endswith(sep + target)]
+
+            # Otherwise remove entries that have target-specific
+            general_items = [(k, v) for k, v in items
+                             if not is_target_specific(k, sep=sep)]
 
             # Return the first item found
             if target_items:
                 return target_items[0]
-            elif items:
-                return items[0]
+            elif general_items:
+                return general_items[0]
 
         # Give up
         return default
-- 
2.43.0


From 281ad11affbb30d5b965dfa15514a0b4d2b9900f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:34 +0000
Subject: [PATCH 39/44] fix: use the width of the target in LaTeX images when
 the attribute is for the target

---
 src/disseminate/tags/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/tags/utils.py b/src/disseminate/tags/utils.py
index d54a448..a0bbbc4 100644
--- a/src/disseminate/tags/utils.py
+++ b/src/disseminate/tags/utils.py
@@ -227,6 +227,8 @@ def tex_percentwidth(attributes, target='.tex', use_positional=False):
                   if not isinstance(attributes, Attributes) else attributes)
 
     # Convert the width to a number between 0 and 100
+    width_key, _ = attributes.find_item('width', target=target,
+                                        default=('width', None))
     width = attributes.get('width', target=target)
     if width is None:
         return attributes
@@ -253,13 +255,13 @@ def tex_percentwidth(attributes, target='.tex', use_positional=False):
         if use_positional:
             attributes[str] = StringPositionalValue
         else:
-            attributes['width'] = str
+            attributes[width_key] = str
     else:
         str = "{}".format(width)
         if use_positional:
             attributes[str] = StringPositionalValue
         else:
-            attributes['width'] = str
+            attributes[width_key] = str
 
     return attributes
 
-- 
2.43.0


From 6fabf2973f7d918867afb91f6eefe60e6afcc040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:58 +0000
Subject: [PATCH 40/44] fix: keep the content of references with several parts
 in LaTeX

---
 src/disseminate/tags/ref.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index 6ae9d87..bba1bd3 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -297,6 +297,8 @@ class Ref(Tag):
                                 context=context)
             content = format_content(content=processed_tag.content,
                                      format_func='tex_fmt', level=level + 1)
+            content = (''.join(content) if isinstance(content, list) else
+                       content)
 
             # setup a url path and include the anchor if the label is not
             # for a DocumentLabel. DocumentLabels should just point to the
-- 
2.43.0


From eb35c19a9e1f5ebd630a27acb3b46fa8ef0b23fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:19 +0000
Subject: [PATCH 41/44] fix: copy nested entries of contexts that are inherited

---
 src/disseminate/context/context.py |  4 ++--
 src/disseminate/context/utils.py   | 30 ++++++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/disseminate/context/context.py b/src/disseminate/context/context.py
index 7dd1aac..dd2b6cd 100644
--- a/src/disseminate/context/context.py
+++ b/src/disseminate/context/context.py
@@ -6,7 +6,7 @@ import logging
 from pprint import pprint
 from weakref import ref
 
-from .utils import load_from_string
+from .utils import copy_nested, load_from_string
 from ..tags import Tag
 from ..utils.classes import all_attributes_values
 from ..utils.string import str_to_dict, str_to_list
@@ -405,7 +405,7 @@ class BaseContext(dict):
                 except TypeError:
                     # Other objects, like dicts, have a copy method to create
                     # a shallow copy, but these do not accept keyword arguments
-                    self[key] = change_value.copy()
+                    self[key] = copy_nested(change_value)
                 except AttributeError:
                     # Otherwise reference the value directly, like immutables
                     self[key] = change_value
diff --git a/src/disseminate/context/utils.py b/src/disseminate/context/utils.py
index 72d2033..837970a 100644
--- a/src/disseminate/context/utils.py
+++ b/src/disseminate/context/utils.py
@@ -60,3 +60,33 @@ def load_from_string(string):
     d = str_to_dict(string)
 
     return rest, d
+
+
+def copy_nested(value):
+    """Copy a dict, list or set with the dicts, lists and sets it holds.
+
+    Parameters
+    ----------
+    value : Union[dict, list, set]
+        The value to copy.
+
+    Returns
+    -------
+    copied_value : Union[dict, list, set]
+        The copy, which may be changed without changing the given value.
+
+    Examples
+    --------
+    >>> d = {'chapter': {'section'}}
+    >>> copy_nested(d)['chapter'].clear()
+    >>> d
+    {'chapter': {'section'}}
+    """
+    copied_value = value.copy()
+    items = (copied_value.items() if isinstance(copied_value, dict) else
+             enumerate(copied_value) if isinstance(copied_value, list) else ())
+
+    for key, item in items:
+        if isinstance(item, (dict, list, set)):
+            copied_value[key] = copy_nested(item)
+    return copied_value
-- 
2.43.0


From b19c7ed5cd09b8438f3bff90d881c1e62cc509c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:00 +0000
Subject: [PATCH 42/44] fix: tell inputs of a build that swapped their contents
 apart

---
 src/disseminate/builders/deciders/md5decider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/builders/deciders/md5decider.py b/src/disseminate/builders/deciders/md5decider.py
index efca2ad..4b74ab8 100644
--- a/src/disseminate/builders/deciders/md5decider.py
+++ b/src/disseminate/builders/deciders/md5decider.py
@@ -45,7 +45,7 @@ class Md5Decision(Decision):
     def calculate_hash(inputs, output):
         """Calculate the md5 hash for the inputs, output and args."""
         sorted_inputs = sorted(inputs, key=str)
-        hash_input = hash_items(*sorted_inputs)
+        hash_input = hash_items(*sorted_inputs, sort=False)
         hash_output = hash_items(output)
 
         return (hash_input, hash_output)
-- 
2.43.0


From 8305d5852e5fe9de1d44ee0beed3c939a5714d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:00 +0000
Subject: [PATCH 43/44] fix: include the ends of lines in hashes of pdf files

---
 src/disseminate/builders/deciders/utils_hash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disseminate/builders/deciders/utils_hash.py b/src/disseminate/builders/deciders/utils_hash.py
index c3e35e8..b8d1b29 100644
--- a/src/disseminate/builders/deciders/utils_hash.py
+++ b/src/disseminate/builders/deciders/utils_hash.py
@@ -136,6 +136,6 @@ def hash_pdf(filepath, chunk_size, hashfunc,
                                   tail=b''):
             if any(line.startswith(starter) for starter in startswith):
                 continue
-            hashobj.update(line)
+            hashobj.update(line + b'\n')
 
     return hashobj.digest()
-- 
2.43.0


From cfbce1786aec90db22edf75ff4027b1f70075226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:39 +0000
Subject: [PATCH 44/44] fix: keep references to documents that are not made for
 the target

---
 src/disseminate/tags/ref.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/disseminate/tags/ref.py b/src/disseminate/tags/ref.py
index bba1bd3..2a560a5 100644
--- a/src/disseminate/tags/ref.py
+++ b/src/disseminate/tags/ref.py
@@ -5,6 +5,7 @@ from .tag import Tag
 from .exceptions import assert_content_str
 from .utils import content_to_str, format_content
 from ..label_manager.types import DocumentLabel
+from ..document.exceptions import TargetNotFound
 from ..signals import signal
 from ..formats import xhtml_tag, tex_cmd
 
@@ -172,9 +173,9 @@ class Ref(Tag):
 
         Returns
         -------
-        url_path : str
+        url_path : Optional[str]
             The url path for the document owning the label referenced by this
-            tag.
+            tag, or None if the documents are not available for the target.
         """
         context = self.context
         cache = dict() if cache is None else cache
@@ -200,13 +201,14 @@ class Ref(Tag):
         # In this case, the label and tag documents are different. Return a
         # link to the label's document.
         document = self.document(cache=cache)
-        target_filepath = document.target_filepath(target)
 
-        if target_filepath is None:
+        # There is no link if either document is not available for the target
+        try:
+            target_filepath = document.target_filepath(target)
+            link = target_filepath.get_url(context=self.context)
+        except TargetNotFound:
             return None
 
-        link = target_filepath.get_url(context=self.context)
-
         return link + '#' + label.id if include_anchor else link
 
     def default_fmt(self, content=None, attributes=None, cache=None, **kwargs):
-- 
2.43.0

