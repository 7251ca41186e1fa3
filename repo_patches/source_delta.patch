From 8a45a0aeb89c82576e3a7759c4c41505eeae9d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:19 +0000
Subject: [PATCH 01/68] fix: keep leading blanks of string values when parsing
 ids

---
 whatami/parsers.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 7cd8852..f2069d3 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -49,7 +49,8 @@ def build_whatami_parser(reduce_tree=False, debug=False):
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
-        return StrMatch("'"), RegExMatch(r"(\\.|[^'])*"), StrMatch("'")
+        # N.B. quotes must belong to the token, otherwise arpeggio eats blanks at the beginning of the string
+        return RegExMatch(r"'(\\.|[^'])*'")
 
     def a_true():
         return StrMatch('True')
@@ -151,12 +152,8 @@ class WhatamiTreeVisitor(PTNodeVisitor):
             return float(node.value)
 
     @staticmethod
-    def visit_a_string(_, children):
-        if 1 == len(children):
-            return children[0]
-        elif 0 == len(children):
-            return ''
-        raise ValueError('unexpected string children: %r' % children)  # pragma: no cover
+    def visit_a_string(node, _):
+        return node.value[1:-1]
 
     @staticmethod
     def visit_a_true(*_):
@@ -343,7 +340,8 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
                 StrMatch('-inf'), StrMatch('inf'), StrMatch('nan')]
 
     def a_string():
-        return StrMatch("'"), RegExMatch(r"(\\.|[^'])*"), StrMatch("'")
+        # N.B. quotes must belong to the token, otherwise arpeggio eats blanks at the beginning of the string
+        return RegExMatch(r"'(\\.|[^'])*'")
 
     def a_true():
         return StrMatch('True')
-- 
2.43.0


From e29aa113b0a442cfbb982099330b92af89cd907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 02/68] fix: unescape single quotes when parsing strings in ids

---
 whatami/parsers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index f2069d3..ecd2c2d 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -5,6 +5,7 @@
 # Licence: BSD 3 clause
 
 from __future__ import print_function, absolute_import, unicode_literals  # N.B. arpeggio wants unicode
+import re
 from arpeggio import ParserPython, Optional, ZeroOrMore, StrMatch, RegExMatch, EOF, PTNodeVisitor, visit_parse_tree
 from whatami import maybe_import
 
@@ -50,7 +51,7 @@ def build_whatami_parser(reduce_tree=False, debug=False):
 
     def a_string():
         # N.B. quotes must belong to the token, otherwise arpeggio eats blanks at the beginning of the string
-        return RegExMatch(r"'(\\.|[^'])*'")
+        return RegExMatch(r"'(\\[\s\S]|[^'\\])*'")
 
     def a_true():
         return StrMatch('True')
@@ -153,7 +154,8 @@ class WhatamiTreeVisitor(PTNodeVisitor):
 
     @staticmethod
     def visit_a_string(node, _):
-        return node.value[1:-1]
+        # Unescape single quotes, the only character that needs escaping (see string_plugin)
+        return re.sub(r"\\([\s\S])", lambda m: "'" if m.group(1) == "'" else m.group(0), node.value[1:-1])
 
     @staticmethod
     def visit_a_true(*_):
@@ -341,7 +343,7 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
 
     def a_string():
         # N.B. quotes must belong to the token, otherwise arpeggio eats blanks at the beginning of the string
-        return RegExMatch(r"'(\\.|[^'])*'")
+        return RegExMatch(r"'(\\[\s\S]|[^'\\])*'")
 
     def a_true():
         return StrMatch('True')
-- 
2.43.0


From 4ae4fa41088769b95e99a6e31af073732bc8c45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 03/68] fix: escape backslashes that would take the closing
 quote of strings in ids

---
 whatami/plugins.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index f20fd10..2da3e63 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -7,6 +7,7 @@ from __future__ import print_function, absolute_import
 from future.utils import string_types, PY2
 
 import inspect
+import re
 from collections import OrderedDict
 from functools import partial
 
@@ -129,7 +130,10 @@ def string_plugin(v):
     This is a single-quoted string with single-quoted characters escaped.
     """
     if isinstance(v, string_types):
-        return '\'%s\'' % v.replace("\\'", "'").replace("'", "\\'")
+        # N.B. already escaped characters are left alone and a dangling backslash is completed,
+        # so that the closing single quote can never be taken by an escaped one
+        escaped = re.sub(r"\\[\s\S]|\\|'", lambda m: m.group(0) if len(m.group(0)) == 2 else '\\' + m.group(0), v)
+        return "'%s'" % escaped
         # This is correct because of these relations:
         # "'" == "\'"
         # "\\'" == "\\\'"
-- 
2.43.0


From 3f1ed8da4fd2699bf12913783fa962932d461f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 04/68] fix: parse nested ids with names starting like a
 literal

---
 whatami/parsers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index ecd2c2d..c268377 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -103,7 +103,9 @@ def build_whatami_parser(reduce_tree=False, debug=False):
     # Key-values
 
     def value():
-        return [a_none, a_bool, a_number, a_string, a_tuple, a_list, a_set, a_dict, a_class, whatami_id]
+        # N.B. whatami_id must precede the literals that can prefix a name (e.g. "nanmean()", "o=f()" or "None_()"),
+        # and must not precede "set()" and "frozenset()"
+        return [a_set, whatami_id, a_none, a_bool, a_number, a_string, a_tuple, a_list, a_dict, a_class]
 
     def kv():
         return an_id, StrMatch('='), value
-- 
2.43.0


From 50e73560aef5aecce76ff38710460604c192db18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 05/68] fix: parse ids with out_name and empty configuration

---
 whatami/parsers.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index c268377..b3cd299 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -7,6 +7,7 @@
 from __future__ import print_function, absolute_import, unicode_literals  # N.B. arpeggio wants unicode
 import re
 from arpeggio import ParserPython, Optional, ZeroOrMore, StrMatch, RegExMatch, EOF, PTNodeVisitor, visit_parse_tree
+from future.utils import string_types
 from whatami import maybe_import
 
 
@@ -244,17 +245,11 @@ class WhatamiTreeVisitor(PTNodeVisitor):
     @staticmethod
     def visit_whatami_id(_, children):
         from whatami import What
-        # lengths can be 1, 2 or 3
-        if 3 == len(children):
-            out_name, an_id, kvs = children
-        elif 2 == len(children):
-            an_id, kvs = children
-            out_name = None
-        else:
-            an_id = children[0]
-            kvs = []
-            out_name = None
-        return What(an_id, dict(list(kvs)), out_name=out_name)
+        # both the out_name (first) and the kvs (last) are optional
+        kvs = [] if isinstance(children[-1], string_types) else children[-1]
+        names = [child for child in children if isinstance(child, string_types)]
+        out_name = names[0] if 2 == len(names) else None
+        return What(names[-1], dict(list(kvs)), out_name=out_name)
 
     @staticmethod
     def visit_whatami_id_top(_, children):
-- 
2.43.0


From 6a039e346f61f8f7612154566d1074e2277423f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 06/68] fix: parse frozensets as frozensets

---
 whatami/parsers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index b3cd299..476bdfa 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -92,14 +92,16 @@ def build_whatami_parser(reduce_tree=False, debug=False):
         return StrMatch('{'), Optional(dict_elements), StrMatch('}')
 
     def an_empty_set():
-        return [StrMatch('set()'), StrMatch('frozenset()')]
+        return StrMatch('set'), StrMatch('('), StrMatch(')')
 
     def a_non_empty_set():
-        return [(StrMatch('{'), list_elements, StrMatch('}')),
-                (StrMatch('frozenset({'), list_elements, StrMatch('})'))]
+        return StrMatch('{'), list_elements, StrMatch('}')
+
+    def a_frozenset():
+        return StrMatch('frozenset'), StrMatch('('), Optional(a_non_empty_set), StrMatch(')')
 
     def a_set():
-        return [an_empty_set, a_non_empty_set]
+        return [an_empty_set, a_non_empty_set, a_frozenset]
 
     # Key-values
 
@@ -226,6 +228,10 @@ class WhatamiTreeVisitor(PTNodeVisitor):
     def visit_a_non_empty_set(_, children):
         return set(list(children[0]))
 
+    @staticmethod
+    def visit_a_frozenset(_, children):
+        return frozenset(children[0]) if len(children) else frozenset()
+
     # Key-values
 
     @staticmethod
-- 
2.43.0


From 7a7ffc3c98944fd47f8eccdf7a21f331764cb414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 07/68] fix: make configurations hashable, so sets and dict
 keys can hold them when parsing

---
 whatami/what.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index 0f85db4..d5b7981 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -202,6 +202,10 @@ class What(object):
                 hasattr(other, 'conf') and self.conf == other.conf and
                 hasattr(other, 'out_name') and self.out_name == other.out_name)
 
+    def __hash__(self):
+        """Consistent with equality; N.B. configurations are mutable (and can hold unhashable values), so ignore them."""
+        return hash((self.name, self.out_name))
+
     def __str__(self):
         """The default representation is the configuration string including non_ids keys."""
         return self.id(nonids_too=True)
-- 
2.43.0


From 80e24ede575490db959646d2931ab5d7228ee2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 08/68] fix: parse builtin classes

---
 whatami/parsers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 476bdfa..6791172 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -187,7 +187,8 @@ class WhatamiTreeVisitor(PTNodeVisitor):
     def visit_a_class(_, children):
         module, _, clazz = children[0].rpartition('.')
         try:
-            return getattr(maybe_import(module), clazz)
+            # N.B. python omits the module in the representation of builtin classes, e.g. "<class 'list'>"
+            return getattr(maybe_import(module or object.__module__), clazz)
         except (ImportError, AttributeError):
             # Unfortunately it breaks roundtripping, but is a lesser evil
             return {'class': children[0]}
-- 
2.43.0


From 294255e74264a6821ffc943ab3a77fe48c4767f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 09/68] fix: reject empty sets in the old grammar, empty dicts
 in old ids parse again

---
 whatami/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 6791172..24bc592 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -385,7 +385,7 @@ def build_oldwhatami_parser(reduce_tree=False, debug=False):
         return StrMatch('set()')
 
     def a_non_empty_set():
-        return StrMatch('{'), Optional(list_elements), StrMatch('}')
+        return StrMatch('{'), list_elements, StrMatch('}')
 
     def a_set():
         return [an_empty_set, a_non_empty_set]
-- 
2.43.0


From c0471ad3c0adc32cf3564b968312a3873c33ef62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 10/68] fix: do not repeat nested values in positional ids

---
 whatami/what.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index d5b7981..23052a5 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -286,7 +286,7 @@ class What(object):
         """
         from whatami.plugins import WhatamiPluginManager
         my_id = '%s(%s)' % (self.name, ','.join(map(WhatamiPluginManager.build_string,
-                                                    self.values(non_ids_too=non_ids_too))))
+                                                    self.values(non_ids_too=non_ids_too, recursive=False))))
         if self.out_name is not None:
             my_id = '%s=%s' % (self.out_name, my_id)
         return self._trim_too_long(my_id, maxlength=maxlength)
-- 
2.43.0


From 4200dc9cd814b503236743209f9d133790b26cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 11/68] fix: raise KeyError when a path traverses values that
 cannot be addressed

---
 whatami/what.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index 23052a5..45a1794 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -229,7 +229,11 @@ class What(object):
                     try:
                         w = w[key]
                     except TypeError:
+                        if inspect.isclass(w) or not is_whatable(w):
+                            raise KeyError(item)
                         w = w.what()[key]
+                    except IndexError:
+                        raise KeyError(item)
                 return w
             raise
 
-- 
2.43.0


From 6d980daa71052e95e33bd16a29b23e3a50a57ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 12/68] fix: flatten dictionaries with keys that cannot be
 compared

---
 whatami/what.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 45a1794..fce50ae 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -70,6 +70,7 @@ import hashlib
 import inspect
 from copy import deepcopy
 from functools import partial, update_wrapper, WRAPPER_ASSIGNMENTS
+from operator import itemgetter
 import types
 
 from future.utils import PY3
@@ -166,6 +167,8 @@ class What(object):
         >>> values[-1] == what[keys[-1]]
         True
         """
+        from whatami.plugins import WhatamiPluginManager
+
         def flatten(what, flattened_keys, flattened_values, partial_k):
             if isinstance(what, What):
                 if non_ids_too:
@@ -175,7 +178,10 @@ class What(object):
             elif isinstance(what, (list, tuple)) and collections_too:
                 kvs = enumerate(what)
             elif isinstance(what, dict) and collections_too:
-                kvs = sorted(what.items())
+                try:
+                    kvs = sorted(what.items(), key=itemgetter(0))
+                except TypeError:  # keys cannot be compared
+                    kvs = sorted(what.items(), key=lambda item: WhatamiPluginManager.build_string(item[0]))
             else:
                 kvs = ()
             for k, v in kvs:
-- 
2.43.0


From 75511b1121f3956954bd7dfb0390b45ec792be38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 13/68] fix: honor non_id_keys when whatamising functions

---
 whatami/what.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index fce50ae..d22d2d0 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -529,7 +529,8 @@ def whatable(obj=None,
         # Adds what method
         if whatfunc is None:
             name, config_dict = callable2call(obj, closure_extractor=extract_decorated_function_from_closure)
-            whatablefunc.what = partial(What, name=name, conf=config_dict, non_id_keys=excludes)
+            non_ids = set(excludes or ()) | set(non_id_keys or ())
+            whatablefunc.what = partial(What, name=name, conf=config_dict, non_id_keys=non_ids)
         else:
             whatablefunc.what = partial(whatfunc, whatablefunc)
         whatablefunc.what.whatami = True
-- 
2.43.0


From ca8ea2dae1646b823fd499449d9909b50c474a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 14/68] fix: give each what() call of whatamised functions its
 own configuration

---
 whatami/what.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index d22d2d0..25d02c2 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -530,7 +530,11 @@ def whatable(obj=None,
         if whatfunc is None:
             name, config_dict = callable2call(obj, closure_extractor=extract_decorated_function_from_closure)
             non_ids = set(excludes or ()) | set(non_id_keys or ())
-            whatablefunc.what = partial(What, name=name, conf=config_dict, non_id_keys=non_ids)
+
+            def fresh_what(conf=config_dict, **kwargs):
+                # N.B. each call must get its own configuration
+                return What(conf=conf.copy(), **kwargs)
+            whatablefunc.what = partial(fresh_what, name=name, non_id_keys=non_ids)
         else:
             whatablefunc.what = partial(whatfunc, whatablefunc)
         whatablefunc.what.whatami = True
-- 
2.43.0


From cc60221d48bfd8ab5c27607d5843b7ed53c1326d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 15/68] fix: empty prefixes and postfixes exclude nothing in
 trim_dict

---
 whatami/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 4537a41..9ee3645 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -480,8 +480,8 @@ def trim_dict(cd, exclude_prefix='_', exclude_postfix='_', excludes=('what',)):
     A copy of cd with only the allowed keys.
     """
     return {k: v for k, v in cd.items() if
-            (exclude_prefix and not k.startswith(exclude_prefix)) and
-            (exclude_postfix and not k.endswith(exclude_postfix)) and
+            (not exclude_prefix or not k.startswith(exclude_prefix)) and
+            (not exclude_postfix or not k.endswith(exclude_postfix)) and
             k not in set(excludes)}
 
 
-- 
2.43.0


From 78490dc921bdade10656e23fb28d9765110b06bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 16/68] fix: ignore unset slots when inspecting objects

---
 whatami/misc.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 9ee3645..51ea063 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -399,8 +399,14 @@ def _slotsdict(obj):
     {'prop': 3}
     """
     descriptors = inspect.getmembers(obj.__class__, inspect.isdatadescriptor)
-    return {dname: value.__get__(obj) for dname, value in descriptors if
-            '__weakref__' != dname if inspect.ismemberdescriptor(value)}
+    slots = {}
+    for dname, value in descriptors:
+        if '__weakref__' != dname and inspect.ismemberdescriptor(value):
+            try:
+                slots[dname] = value.__get__(obj)
+            except AttributeError:
+                pass  # the slot is not set (yet)
+    return slots
 
 
 def _propsdict(obj):
-- 
2.43.0


From 76fb3389b457160e4e9b2f52af972822b54cde1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 17/68] fix: allow iterators as non_id_keys and excludes in
 whatable and trim_dict

---
 whatami/misc.py | 3 ++-
 whatami/what.py | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 51ea063..d4b5949 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -485,10 +485,11 @@ def trim_dict(cd, exclude_prefix='_', exclude_postfix='_', excludes=('what',)):
     -------
     A copy of cd with only the allowed keys.
     """
+    excludes = set(excludes)
     return {k: v for k, v in cd.items() if
             (not exclude_prefix or not k.startswith(exclude_prefix)) and
             (not exclude_postfix or not k.endswith(exclude_postfix)) and
-            k not in set(excludes)}
+            k not in excludes}
 
 
 def config_dict_for_object(obj,
diff --git a/whatami/what.py b/whatami/what.py
index 25d02c2..5236d26 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -506,6 +506,10 @@ def whatable(obj=None,
                        excludes=excludes,
                        modify_func_inplace=modify_func_inplace)
 
+    # these will be used in each what() call, so make sure that iterators are not exhausted by the first one
+    non_id_keys = set(non_id_keys) if is_iterable(non_id_keys) else non_id_keys
+    excludes = set(excludes) if is_iterable(excludes) else excludes
+
     # function decorator
     if inspect.isfunction(obj) or isinstance(obj, partial):
 
-- 
2.43.0


From 41bb17cddf3387a29f27ada85027c6d08830fbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 18/68] fix: allow iterators as ignored_keys in match_whatids

---
 whatami/whatutils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 8f41fff..df6d2c6 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -305,6 +305,8 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
                                                            collections_too=collections_too,
                                                            recursive=recursive)
 
+    ignored_keys = set(ignored_keys)
+
     def ignore_key(key, ignored_keys):
         if key in ignored_keys:
             return True
@@ -315,7 +317,7 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
 
     def not_ignored_values(keys, values):
         return [(value.name, value.out_name) if isinstance(value, What) else value
-                for key, value in zip(keys, values) if not ignore_key(key, set(ignored_keys))]
+                for key, value in zip(keys, values) if not ignore_key(key, ignored_keys)]
 
     def partial_match(what, template_values):
         if what.name != template_name:
-- 
2.43.0


From 75a390acee72728b5f9136ed58c3029eceb04cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 19/68] fix: allow to remove registry entries by both nickname
 and what

---
 whatami/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index b627b2d..fcf0304 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -70,7 +70,7 @@ class WhatamiRegistry(object):
             whatid = self.nick2id(nickname)
         else:
             old_whatid = self.nick2id(nickname)
-            old_nick = self.id2nick(nickname)
+            old_nick = self.id2nick(whatid)
             if old_whatid != whatid or old_nick != nickname:
                 raise ValueError('both whatid "%s"=="%s" and nickname "%s"=="%s" identities must hold' %
                                  (whatid, old_whatid, nickname, old_nick))
-- 
2.43.0


From 5004e1ae7bfe944658f7af339617bcd48844b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 20/68] fix: unbox iterables for records with any id in
 Recorder.add

---
 whatami/registry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index fcf0304..bded66a 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -106,8 +106,9 @@ class WhatamiRegistry(object):
 
 class _DefaultDict(dict):
     """Like collections.defaultdict, but does not add missing keys to the dictionary."""
-    def __init__(self, default, **kwargs):
-        super(_DefaultDict, self).__init__(**kwargs)
+    def __init__(self, default, items=()):
+        # N.B. do not use kwargs: keys can be anything
+        super(_DefaultDict, self).__init__(items)
         self.default = default
 
     def __getitem__(self, key):
@@ -561,7 +562,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             if warn and len(ids) != len(params):  # pragma: no cover
                 print('WARNING: number of names is different to the number of parameters (%d != %d)' %
                       (len(ids), len(params)))
-            return _DefaultDict(None, **dict(zip(ids, params)))
+            return _DefaultDict(None, zip(ids, params))
         return _DefaultDict(default=params)
 
     def add(self, ids, unbox_iterables=True,
-- 
2.43.0


From 321553ac0eb13f4463d4f0995e98d1e8083c3369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 21/68] fix: do not share the list of postprocessors between
 recorders

---
 whatami/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index bded66a..3411e5f 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -513,7 +513,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
             raise ValueError('id_column_name must be a string')  # pragma: no cover
         self.id_column_name = id_column_name
         self._column_defaults = column_defaults
-        self._record_postprocessors = [] if not record_postprocessors else record_postprocessors
+        self._record_postprocessors = [] if not record_postprocessors else list(record_postprocessors)
 
     # --- Column defaults
 
-- 
2.43.0


From ed7faf5bce2f71e6509da69e73317356df810021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 22/68] fix: maybe_import must choose the first importable
 variant

---
 whatami/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/whatami/misc.py b/whatami/misc.py
index d4b5949..b8b9b12 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -716,6 +716,7 @@ class _LazyImportError(object):
         for variant in variants:
             try:
                 self.module = import_module(variant)
+                break
             except ImportError as ie:
                 self._errors.append((variant, ie))
         # Autogenerate install hint
-- 
2.43.0


From 5878f2c9c6a3619e5709bc531fd3e44c1c53e8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 23/68] fix: import_submodules must raise on errors at any
 level when asked to

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index b8b9b12..09129b5 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -835,7 +835,7 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
                 raise
         if recurse_packages and is_pkg:
             try:
-                results.update(import_submodules(full_name))
+                results.update(import_submodules(full_name, ignore_errors=ignore_errors))
             except ImportError:  # pragma: no cover
                 if not ignore_errors:
                     raise
-- 
2.43.0


From 67d3813c2c7ce68d7deee1184bfa1bf229efaac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 24/68] fix: import_submodules must not descend into unrelated
 top-level packages

---
 whatami/misc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 09129b5..7ca9350 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -8,7 +8,7 @@ from __future__ import absolute_import
 # noinspection PyProtectedMember
 from future.utils import PY3, string_types
 
-from pkgutil import walk_packages
+from pkgutil import iter_modules
 
 from functools import partial
 from itertools import chain
@@ -826,7 +826,8 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
                 return results
             raise
     results[package.__name__] = package
-    for _, name, is_pkg in walk_packages(package.__path__):
+    # N.B. walk_packages would also import and descend into top-level packages named like any subpackage
+    for _, name, is_pkg in iter_modules(package.__path__):
         full_name = package.__name__ + '.' + name
         try:
             results[full_name] = import_module(full_name)
-- 
2.43.0


From 1d23eb685f0e190432378adc83103d211a87297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 25/68] fix: allow partials to bind by position parameters with
 defaults

---
 whatami/misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 7ca9350..7e8cabd 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -304,7 +304,7 @@ def callable2call(c, closure_extractor=lambda c: c):
             args = [] if not args else args
             args_set = set(args)
             # Check that everything is fine...
-            keywords = dict(chain(zip(args[-len(defaults):], defaults), keywords.items()))  # N.B. order matters
+            defaults = dict(zip(args[-len(defaults):], defaults))
             pos2keyword = dict(zip(args[:len(positional)], positional))  # N.B. order matters
             keywords_set = set(keywords.keys())
             if len(keywords_set - args_set) > 0:
@@ -313,11 +313,11 @@ def callable2call(c, closure_extractor=lambda c: c):
             if len(set(pos2keyword.keys()) & set(keywords.keys())) > 0:
                 raise ValueError('Some arguments are indicated both by position and name (%r)' %
                                  sorted(set(pos2keyword.keys()) & set(keywords.keys())))
-            if len(args_set) - len(keywords_set) < len(positional):
+            if len(args) < len(positional):
                 raise ValueError('There are too many positional arguments indicated '
                                  'for the number of unbound positional parameters left.')
             return c.__name__.replace('<', '').replace('>', ''), \
-                dict(list(keywords.items()) + list(pos2keyword.items()))
+                dict(chain(defaults.items(), keywords.items(), pos2keyword.items()))  # N.B. order matters
         if isinstance(c, partial):
             pkeywords = c.keywords if c.keywords is not None else {}
             return callable2call_recursive(
-- 
2.43.0


From 149dd84ef2811cbe27a3142443381094191ac052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 26/68] fix: match_whatids must honor ignored members of
 collections

---
 whatami/whatutils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index df6d2c6..2838d53 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -315,9 +315,17 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
             return ignore_key(partial_key, ignored_keys)
         return False
 
+    def comparable(value):
+        # N.B. members of the nested configurations and collections also appear in their own keys
+        if isinstance(value, What):
+            return value.name, value.out_name
+        if collections_too and recursive and isinstance(value, (list, tuple, dict)):
+            return type(value)
+        return value
+
     def not_ignored_values(keys, values):
-        return [(value.name, value.out_name) if isinstance(value, What) else value
-                for key, value in zip(keys, values) if not ignore_key(key, ignored_keys)]
+        return [comparable(value) for key, value in zip(keys, values)
+                if not ignore_key(key, ignored_keys)]
 
     def partial_match(what, template_values):
         if what.name != template_name:
-- 
2.43.0


From 9712152eab8a50daac98de9f2708824a4ab5b805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 27/68] fix: convert also configurations inside collections to
 dictionaries

---
 whatami/whatutils.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 2838d53..cd2f6d0 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -95,11 +95,18 @@ def id2dict(whatid):
     whatid : string
       a whatami id string
     """
-    what = id2what(whatid)
-    return {'whatami_name': what.name,
-            'whatami_out_name': what.out_name,
-            'whatami_conf': {k: (v if not isinstance(v, What) else v.to_dict())
-                             for k, v in what.conf.items()}}
+    def to_dict(v):
+        if isinstance(v, What):
+            return {'whatami_name': v.name,
+                    'whatami_out_name': v.out_name,
+                    'whatami_conf': to_dict(v.conf)}
+        if isinstance(v, dict):
+            return {k: to_dict(member) for k, member in v.items()}
+        if isinstance(v, (list, tuple)):
+            return type(v)(map(to_dict, v))
+        return v
+
+    return to_dict(id2what(whatid))
 
 
 def obj2what(obj,
-- 
2.43.0


From 647e31a93808bf9502343bcac95752b55dfaa58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:55 +0000
Subject: [PATCH 28/68] fix: whatamize sklearn objects without get_params that
 are not in the registry

---
 whatami/wrappers/what_sklearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/whatami/wrappers/what_sklearn.py b/whatami/wrappers/what_sklearn.py
index a8c2f90..7b8c875 100644
--- a/whatami/wrappers/what_sklearn.py
+++ b/whatami/wrappers/what_sklearn.py
@@ -603,8 +603,8 @@ def _what_for_sklearn(x, use_short=True):
     except AttributeError:
         return obj2what(x,
                         force_inspect=True,
-                        name_override=pinfo.short_name if use_short else name,
-                        non_id_keys=pinfo.non_id_params)
+                        name_override=pinfo.short_name if use_short and pinfo is not None else name,
+                        non_id_keys=pinfo.non_id_params if pinfo is not None else None)
     if pinfo is not None:
         return What(pinfo.short_name if use_short else name,
                     conf=configuration_dict,
-- 
2.43.0


From 190f1e04bac37757e1e7192dc79f83491a501432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 29/68] fix: whatable classes are not whatable instances when
 generating ids

---
 whatami/plugins.py   | 4 ++--
 whatami/what.py      | 7 ++++++-
 whatami/whatutils.py | 5 ++++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index 2da3e63..83aa080 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -15,7 +15,7 @@ from whatami import getargspec, is_whatable
 
 from whatami.misc import maybe_import
 
-from .what import What, whatareyou
+from .what import What, whatareyou, _needs_instance
 from .misc import callable2call, config_dict_for_object, curry2partial
 from .minijoblib.hashing import hasher
 
@@ -36,7 +36,7 @@ def whatable_plugin(v):
 
     This should be second in the plugin chain to allow free specialisation of the what method.
     """
-    if is_whatable(v):
+    if is_whatable(v) and not _needs_instance(v):
         what = v.what
         what = what() if callable(what) else what
         return what_plugin(what)
diff --git a/whatami/what.py b/whatami/what.py
index 5236d26..56057c4 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -235,7 +235,7 @@ class What(object):
                     try:
                         w = w[key]
                     except TypeError:
-                        if inspect.isclass(w) or not is_whatable(w):
+                        if not is_whatable(w) or _needs_instance(w):
                             raise KeyError(item)
                         w = w.what()[key]
                     except IndexError:
@@ -409,6 +409,11 @@ def is_whatable(obj):
         return False
 
 
+def _needs_instance(obj):
+    """Returns True iff obj is a class and its what() method only makes sense for its instances."""
+    return inspect.isclass(obj) and getattr(obj.what, '__self__' if PY3 else 'im_self', None) is None
+
+
 def whatable(obj=None,
              whatfunc=None,
              force_flag_as_whatami=False,
diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index cd2f6d0..823c342 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -17,6 +17,7 @@ from arpeggio import NoMatch
 from whatami import (config_dict_for_object,
                      parse_whatid, build_oldwhatami_parser,
                      whatareyou, What, is_whatable, maybe_import)
+from .what import _needs_instance
 
 
 def whatamize_object(clazz_or_fqn, what_func, fail_on_import_error=True, force=False):
@@ -69,6 +70,8 @@ def what2id(obj):
         return None
     if isinstance(obj, string_types):
         return obj
+    if inspect.isclass(obj) and is_whatable(obj) and _needs_instance(obj):
+        return whatareyou(obj).id()
     try:
         return obj.what().id()
     except AttributeError:
@@ -136,7 +139,7 @@ def obj2what(obj,
     >>> print(obj2what(id2what, excludes=('parser',)).id())
     parse_whatid(visitor=None)
     """
-    if not force_inspect and is_whatable(obj):  # do not move this to whatareyou, or we face infinite recursion
+    if not force_inspect and is_whatable(obj) and not _needs_instance(obj):  # do not move this to whatareyou, or we face infinite recursion
         return obj.what()
     return whatareyou(obj,
                       name_override=name_override,
-- 
2.43.0


From cb7d6101b7735e336b06039bb7fa776d52e363e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 30/68] fix: call2what must freeze the locals

---
 whatami/whatutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 823c342..d34af4f 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -239,7 +239,7 @@ def call2what(depth=1, non_id_keys=None):
     frame, _, _, name, _, _ = inspect.stack()[depth]
     # we could probably be (too) clever here and get only the function parameter values
     # also we could add a parameter to automatically grab only keywords... for next iteration
-    conf_dict = frame.f_locals
+    conf_dict = dict(frame.f_locals)  # N.B. copy, f_locals can keep changing with the locals of the caller
     return What(name, conf=conf_dict, non_id_keys=non_id_keys)
 
 
-- 
2.43.0


From 1cb57402be2bbef1af37774fa5b27fb3b5df9cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 31/68] fix: do not lose elements of sets nor order of ordered
 dictionaries in whatareyou

---
 whatami/what.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index 56057c4..fb9b1fe 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -68,6 +68,7 @@ buy(currency='euro',price=4294967296)
 from __future__ import print_function, absolute_import
 import hashlib
 import inspect
+from collections import OrderedDict
 from copy import deepcopy
 from functools import partial, update_wrapper, WRAPPER_ASSIGNMENTS
 from operator import itemgetter
@@ -358,10 +359,14 @@ def whatareyou(obj,
                                     add_slots=add_slots,
                                     add_properties=add_properties,
                                     add_class=add_class)
-        if type(obj) in (list, tuple, set, dict):  # N.B. do not use isinstance here
+        if type(obj) in (list, tuple, set, frozenset, dict):  # N.B. do not use isinstance here
             cd['seq'] = obj
+        elif isinstance(obj, OrderedDict):
+            cd['seq'] = list(obj.items())
         elif isinstance(obj, dict):
             cd['seq'] = {k: v for k, v in obj.items()}
+        elif isinstance(obj, (set, frozenset)):
+            cd['seq'] = set(obj)
         elif isinstance(obj, tuple):
             cd['seq'] = tuple(obj)
         elif isinstance(obj, list):
-- 
2.43.0


From 52b565267460ee734fded520c2c9c7041b7dd4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 32/68] fix: whatareyou must accept callable instances

---
 whatami/what.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/what.py b/whatami/what.py
index fb9b1fe..4f511f3 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -352,7 +352,7 @@ def whatareyou(obj,
     """
     try:
         name, cd = callable2call(obj)
-    except (ValueError, TypeError):
+    except (ValueError, TypeError, AttributeError):  # N.B. callable instances do not have __name__
         name = obj.__class__.__name__
         cd = config_dict_for_object(obj,
                                     add_dict=add_dict,
-- 
2.43.0


From aca8e3046a065ec5ea684113896572bdd65fc926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 33/68] fix: nested partials must bind the innermost positional
 arguments first

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 7e8cabd..9bd5e3d 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -322,7 +322,7 @@ def callable2call(c, closure_extractor=lambda c: c):
             pkeywords = c.keywords if c.keywords is not None else {}
             return callable2call_recursive(
                 c.func,
-                positional=positional + list(c.args),                  # N.B. order matters
+                positional=list(c.args) + positional,                  # N.B. order matters
                 keywords=dict(chain(pkeywords.items(), keywords.items())))   # N.B. order matters
         if hasattr(c, '__call__'):
             # No way to get the argspec from anything arriving here (builtins and the like...)
-- 
2.43.0


From 7abe6520884b9d043457ee18ec80f6eb6926ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:51 +0000
Subject: [PATCH 34/68] fix: what2id must inspect objects with unrelated what
 or id attributes

---
 whatami/whatutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index d34af4f..6154b98 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -72,12 +72,13 @@ def what2id(obj):
         return obj
     if inspect.isclass(obj) and is_whatable(obj) and _needs_instance(obj):
         return whatareyou(obj).id()
+    # N.B. TypeError: the attribute is not a method that can be called without parameters
     try:
         return obj.what().id()
-    except AttributeError:
+    except (AttributeError, TypeError):
         try:
             return obj.id()
-        except AttributeError:
+        except (AttributeError, TypeError):
             return whatareyou(obj).id()
 
 
-- 
2.43.0


From c2c4176b886891c641b2440017fa69a31a43dc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 35/68] fix: Recorder.add without id extractor must accept
 one-shot iterables of ids

---
 whatami/registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index 3411e5f..d8c6815 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -622,7 +622,8 @@ class Recorder(with_metaclass(_RecorderMeta)):
             ids = [ids]
         # Get whatami ids (maybe this should be left to the caller)
         if self.id_extractor is not None:
-            ids = list(map(self.id_extractor, ids))
+            ids = map(self.id_extractor, ids)
+        ids = list(ids)  # N.B. ids can be any iterable, but they are needed several times
         # Expand iterables to field assignments
         config_dict = {param: self._params2dict(ids, value, unbox_iterables)
                        for param, value in columns.items()}
-- 
2.43.0


From 28543e5dc5f34dde0d68f74811e8de19f03c13a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:35 +0000
Subject: [PATCH 36/68] fix: Recorder.to_df must accept ids that cannot be
 compared

---
 whatami/registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index d8c6815..18e194c 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -691,4 +691,5 @@ class Recorder(with_metaclass(_RecorderMeta)):
         Returns a pandas dataframe with records in rows and as many columns as different attributes.
         It is sorted by insertion order.
         """
-        return pd.DataFrame.from_dict(self._registry, orient='index').loc[self._registry.keys()]
+        # N.B. do not use from_dict, it needs ids that can be compared
+        return pd.DataFrame(list(self._registry.values()), index=list(self._registry.keys()))
-- 
2.43.0


From b669a4ea1d803d1c598fb6beaf98c99dfb70f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:12 +0000
Subject: [PATCH 37/68] fix: whatid2columns must accept categorical columns of
 ids

---
 whatami/whatutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 6154b98..d519892 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -382,6 +382,7 @@ def whatid2columns(df, whatid_col, columns=None, prefix='', postfix='', inplace=
     """
     # parsing is slow, cache the Whats
     whats = {whatid: id2what(whatid) for whatid in df[whatid_col].unique()}
+    whatids = df[whatid_col].astype(object)  # N.B. apply on categoricals makes an index of the values
 
     if columns is None:
         columns = sorted(set(chain.from_iterable(what.keys() for what in whats.values())), key=_key2colname)
@@ -396,7 +397,7 @@ def whatid2columns(df, whatid_col, columns=None, prefix='', postfix='', inplace=
         column_name = _key2colname(column)
         if isinstance(column, list):
             column = tuple(column)
-        df[prefix + column_name + postfix] = df[whatid_col].apply(
+        df[prefix + column_name + postfix] = whatids.apply(
             lambda whatid: _get_or_none(whats[whatid], column))
 
     return df
-- 
2.43.0


From 8933f2579431ae40be7bba7eefe6de7ae03aec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 38/68] fix: whatid2columns must accept ids with null
 characters

---
 whatami/whatutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index d519892..99a3c64 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -381,8 +381,8 @@ def whatid2columns(df, whatid_col, columns=None, prefix='', postfix='', inplace=
     df itself or a copy if inplace is False.
     """
     # parsing is slow, cache the Whats
-    whats = {whatid: id2what(whatid) for whatid in df[whatid_col].unique()}
     whatids = df[whatid_col].astype(object)  # N.B. apply on categoricals makes an index of the values
+    whats = {whatid: id2what(whatid) for whatid in set(whatids)}  # N.B. unique() mistakes strings with null characters
 
     if columns is None:
         columns = sorted(set(chain.from_iterable(what.keys() for what in whats.values())), key=_key2colname)
-- 
2.43.0


From bfb6b0db6dbe5cc08ffaf3178ca3ff6c941353ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 39/68] fix: content hashes must not depend on the order of
 partially ordered keys and elements

---
 whatami/minijoblib/hashing.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index a46a360..f880d25 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -23,6 +23,16 @@ else:
     Pickler = pickle.Pickler
 
 
+def _totally_sorted(elements):
+    """ Sorts the elements, failing with TypeError also when the result would
+        depend on their initial order (nan, or sets compared by inclusion).
+    """
+    elements = sorted(elements)
+    if not all(one < other for one, other in zip(elements, elements[1:])):
+        raise TypeError('the elements are not totally ordered')
+    return elements
+
+
 class _ConsistentSet(object):
     """ Class used to ensure the hash of Sets is preserved
         whatever the order of its items.
@@ -34,13 +44,17 @@ class _ConsistentSet(object):
             # consistent and orderable.
             # This fails on python 3 when elements are unorderable
             # but we keep it in a try as it's faster.
-            self._sequence = sorted(set_sequence)
+            self._sequence = _totally_sorted(set_sequence)
         except TypeError:
             # If elements are unorderable, sorting them using their hash.
             # This is slower but works in any case.
             self._sequence = sorted((hasher(e) for e in set_sequence))
 
 
+class _ConsistentFrozenSet(_ConsistentSet):
+    """ The same as _ConsistentSet for frozen sets. """
+
+
 class _MyHash(object):
     """ Class used to hash objects that won't normally pickle """
 
@@ -138,17 +152,20 @@ class Hasher(Pickler):
 
     def _batch_setitems(self, items):
         # forces order of keys in dict to ensure consistent hash.
+        items = list(items)
         try:
             # Trying first to compare dict assuming the type of keys is
             # consistent and orderable.
             # This fails on python 3 when keys are unorderable
             # but we keep it in a try as it's faster.
-            Pickler._batch_setitems(self, iter(sorted(items)))
+            values = dict(items)
+            items = [(k, values[k])
+                     for k in _totally_sorted(k for k, _ in items)]
         except TypeError:
             # If keys are unorderable, sorting them using their hash. This is
             # slower but works in any case.
-            Pickler._batch_setitems(self, iter(sorted((hasher(k), v)
-                                                      for k, v in items)))
+            items = sorted((hasher(k), v) for k, v in items)
+        Pickler._batch_setitems(self, iter(items))
 
     def save_set(self, set_items):
         # forces order of items in Set to ensure consistent hash
@@ -156,6 +173,12 @@ class Hasher(Pickler):
 
     dispatch[type(set())] = save_set
 
+    def save_frozenset(self, set_items):
+        # the same for frozen sets
+        Pickler.save(self, _ConsistentFrozenSet(set_items))
+
+    dispatch[frozenset] = save_frozenset
+
 
 class NumpyHasher(Hasher):
     """ Special case the hasher for when numpy is loaded.
-- 
2.43.0


From 4bcb0fd16de0d8e7b25103292e60df145d9f0114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:46 +0000
Subject: [PATCH 40/68] fix: arrays with out-of-order fields must have ids

---
 whatami/minijoblib/hashing.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index f880d25..f2b1ada 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -261,7 +261,13 @@ class NumpyHasher(Hasher):
             # .descr which is a full (and never interned) description of
             # the array dtype according to the numpy doc.
             klass = obj.__class__
-            obj = (klass, ('HASHED', obj.descr))
+            try:
+                descr = obj.descr
+            except ValueError:
+                # Not defined for overlapping or out-of-order fields
+                descr = (obj.itemsize,
+                         [(name, obj.fields[name]) for name in obj.names])
+            obj = (klass, ('HASHED', descr))
         Hasher.save(self, obj)
 
 
-- 
2.43.0


From a68c4fdae874f17e72c11816a95f90c25435e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 41/68] fix: array ids must not depend on padding bytes

---
 whatami/minijoblib/hashing.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index f2b1ada..5456f2d 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -204,6 +204,26 @@ class NumpyHasher(Hasher):
         else:
             self._getbuffer = memoryview
 
+    def _without_padding(self, array):
+        """ Zeroes the bytes that are not part of any value, if the array can
+            have them, because their contents are arbitrary.
+        """
+        def copy_values(source, dest):
+            if source.dtype.names:
+                for name in source.dtype.names:
+                    copy_values(source[name], dest[name])
+            elif source.dtype.char in 'gG':
+                # long doubles; assigning would copy also the padding
+                self.np.positive(source, out=dest)
+            else:
+                dest[...] = source
+
+        if not array.dtype.names and array.dtype.char not in 'gG':
+            return array
+        clean = self.np.zeros(array.shape, dtype=array.dtype)
+        copy_values(array.view(self.np.ndarray), clean)
+        return clean
+
     def save(self, obj):
         """ Subclass the save method, to hash ndarray subclass, rather
             than pickling them. Off course, this is a total abuse of
@@ -226,6 +246,8 @@ class NumpyHasher(Hasher):
                 # XXX: There might be a more efficient way of doing this
                 obj_c_contiguous = obj.flatten()
 
+            obj_c_contiguous = self._without_padding(obj_c_contiguous)
+
             # memoryview is not supported for some dtypes, e.g. datetime64, see
             # https://github.com/numpy/numpy/issues/4983. The
             # workaround is to view the array as bytes before
-- 
2.43.0


From 948dcf9cfc94411ffb5eb7c9989a76cdcc996ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 42/68] fix: data frame ids must not depend on how the data
 frame has been used

---
 whatami/minijoblib/hashing.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index 5456f2d..51073b7 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -204,6 +204,22 @@ class NumpyHasher(Hasher):
         else:
             self._getbuffer = memoryview
 
+    def save_reduce(self, func, args, state=None, *rest, **kwargs):
+        """ Subclass to leave out the caches that pandas arrays include in
+            their state, because they depend on how the array has been used.
+        """
+        def without_cache(state):
+            if isinstance(state, tuple):
+                return tuple(map(without_cache, state))
+            if isinstance(state, dict) and '_cache' in state:
+                return dict((k, v) for k, v in state.items() if k != '_cache')
+            return state
+
+        module = str(getattr(type(kwargs.get('obj')), '__module__', ''))
+        if module.split('.')[0] == 'pandas':
+            state = without_cache(state)
+        Hasher.save_reduce(self, func, args, state, *rest, **kwargs)
+
     def _without_padding(self, array):
         """ Zeroes the bytes that are not part of any value, if the array can
             have them, because their contents are arbitrary.
-- 
2.43.0


From 3b0a618439910833f3390d46096f1d3ea1384100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:25 +0000
Subject: [PATCH 43/68] fix: array ids must not depend on the meaningless
 strides of axes with one element

---
 whatami/minijoblib/hashing.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index 51073b7..1918d04 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -220,6 +220,24 @@ class NumpyHasher(Hasher):
             state = without_cache(state)
         Hasher.save_reduce(self, func, args, state, *rest, **kwargs)
 
+    @staticmethod
+    def _strides(array):
+        """ The strides of a new array like this one. In contiguous arrays,
+            the strides of axes with only one element are arbitrary.
+        """
+        if array.flags.c_contiguous:
+            axes = range(array.ndim - 1, -1, -1)
+        elif array.flags.f_contiguous:
+            axes = range(array.ndim)
+        else:
+            return array.strides
+        strides = list(array.strides)
+        stride = array.itemsize
+        for axis in axes:
+            strides[axis] = stride
+            stride *= array.shape[axis] or 1
+        return tuple(strides)
+
     def _without_padding(self, array):
         """ Zeroes the bytes that are not part of any value, if the array can
             have them, because their contents are arbitrary.
@@ -285,7 +303,7 @@ class NumpyHasher(Hasher):
             # different views on the same data with different dtypes.
 
             # The object will be pickled by the pickler hashed at the end.
-            obj = (klass, ('HASHED', obj.dtype, obj.shape, obj.strides))
+            obj = (klass, ('HASHED', obj.dtype, obj.shape, self._strides(obj)))
         elif isinstance(obj, self.np.dtype):
             # Atomic dtype objects are interned by their default constructor:
             # np.dtype('f8') is np.dtype('f8')
-- 
2.43.0


From 0d44fd12cadca75067878035ac791a46b346f8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 44/68] fix: call_dict must cope with parameters deleted by the
 caller

---
 whatami/misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 9bd5e3d..7e1c273 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -199,10 +199,10 @@ def call_dict(depth=1, ignores=('cls', 'self'), ignore_varargs=False, overrides=
     [('x', 1), ('y', 'custom_logic')]
     """
     args, varargs, kwargs_name, frame_locals = inspect.getargvalues(inspect.stack()[depth][0])
-    call_param_value = {arg: frame_locals[arg] for arg in args}
+    call_param_value = {arg: frame_locals[arg] for arg in args if arg in frame_locals}  # N.B. arg could be deleted
     # Ignore unnammed parameters
     if varargs is not None:
-        if not ignore_varargs and frame_locals[varargs]:
+        if not ignore_varargs and frame_locals.get(varargs):
             raise ValueError('call_dict assumes there are no varargs')
     # Remove self
     for to_ignore in ignores:
@@ -212,7 +212,7 @@ def call_dict(depth=1, ignores=('cls', 'self'), ignore_varargs=False, overrides=
             pass
     # Flatten kwargs
     if kwargs_name is not None:
-        kwargs = frame_locals[kwargs_name]
+        kwargs = frame_locals.get(kwargs_name, {})
         call_param_value.update(kwargs)
     # Override values
     if overrides:
-- 
2.43.0


From 2f8aa31dbff35c61e992f6084e7c18545d18c836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:39 +0000
Subject: [PATCH 45/68] fix: call_dict must ignore also keyword arguments

---
 whatami/misc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 7e1c273..39e4986 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -204,16 +204,16 @@ def call_dict(depth=1, ignores=('cls', 'self'), ignore_varargs=False, overrides=
     if varargs is not None:
         if not ignore_varargs and frame_locals.get(varargs):
             raise ValueError('call_dict assumes there are no varargs')
+    # Flatten kwargs
+    if kwargs_name is not None:
+        kwargs = frame_locals.get(kwargs_name, {})
+        call_param_value.update(kwargs)
     # Remove self
     for to_ignore in ignores:
         try:
             del call_param_value[to_ignore]
         except KeyError:
             pass
-    # Flatten kwargs
-    if kwargs_name is not None:
-        kwargs = frame_locals.get(kwargs_name, {})
-        call_param_value.update(kwargs)
     # Override values
     if overrides:
         call_param_value.update(overrides)
-- 
2.43.0


From 45aaa09d42efae130a87cafb259e2f0a44e67a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:04 +0000
Subject: [PATCH 46/68] fix: call2what must give valid ids for lambdas and
 comprehensions

---
 whatami/whatutils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index 99a3c64..ac6b75c 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -240,8 +240,9 @@ def call2what(depth=1, non_id_keys=None):
     frame, _, _, name, _, _ = inspect.stack()[depth]
     # we could probably be (too) clever here and get only the function parameter values
     # also we could add a parameter to automatically grab only keywords... for next iteration
-    conf_dict = dict(frame.f_locals)  # N.B. copy, f_locals can keep changing with the locals of the caller
-    return What(name, conf=conf_dict, non_id_keys=non_id_keys)
+    # N.B. copy, f_locals can keep changing with the locals of the caller; names like .0 are not actual locals
+    conf_dict = {k: v for k, v in frame.f_locals.items() if not k.startswith('.')}
+    return What(name.replace('<', '').replace('>', ''), conf=conf_dict, non_id_keys=non_id_keys)
 
 
 def _get_or_none(what, key):
-- 
2.43.0


From ba64a32743aee4c7c84983d2606b01587db4ce97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:11 +0000
Subject: [PATCH 47/68] fix: maybe_import_member must work with variants

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 39e4986..1aaf8bf 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -792,7 +792,7 @@ def maybe_import_member(member_fqn, fail_if_import_error=True, install_msg=None,
     if not module:
         raise ValueError('Please provide a FQN, including module name (was given %r)' % member_fqn)
     try:
-        return getattr(maybe_import(module, install_msg=install_msg, *variants), member)
+        return getattr(maybe_import(module, install_msg, *variants), member)
     except ImportError:
         if fail_if_import_error:
             raise
-- 
2.43.0


From bfb405448075295d580ae2bedafc4f42e972625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 48/68] fix: members named module of libraries that fail to
 import must fail too

---
 whatami/misc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 1aaf8bf..bf7f707 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -710,12 +710,12 @@ class _LazyImportError(object):
         self._variants = variants
         self._errors = []
         # Try to import
-        self.module = self
+        self._module = self
         if not variants:
             variants = [self._library_name]
         for variant in variants:
             try:
-                self.module = import_module(variant)
+                self._module = import_module(variant)
                 break
             except ImportError as ie:
                 self._errors.append((variant, ie))
@@ -725,7 +725,7 @@ class _LazyImportError(object):
         self._install_msg = install_msg
 
     def __getattribute__(self, name):
-        if name in ('_library_name', '_install_msg', '_errors', '_maybe_import', 'module', '_variants'):
+        if name in ('_library_name', '_install_msg', '_errors', '_maybe_import', '_module', '_variants'):
             return super(_LazyImportError, self).__getattribute__(name)  # pragma: no cover
         errors_msg = '\n'.join(['\timport %s: %s' % (variant, str(ie)) for variant, ie in self._errors])
         if self._install_msg is not None:
@@ -762,7 +762,7 @@ def maybe_import(library_name, install_msg=None, *variants):
       toolz = LazyImportError.maybe_import(toolz, install_msg='conda', 'cytoolz', 'toolz')
     """
     lie = _LazyImportError(library_name, install_msg, *variants)
-    return lie.module
+    return lie._module
 
 
 def maybe_import_member(member_fqn, fail_if_import_error=True, install_msg=None, *variants):
-- 
2.43.0


From 709ace62af6674af34dfd0fbab8d619d472617cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 49/68] fix: import_submodules must ignore any error of broken
 modules if asked to

---
 whatami/misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index bf7f707..c01e34a 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -821,7 +821,7 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
     if isinstance(package, string_types):
         try:
             package = import_module(package)
-        except ImportError:
+        except Exception:  # N.B. broken modules can raise anything, not only ImportError
             if ignore_errors:
                 return results
             raise
@@ -831,13 +831,13 @@ def import_submodules(package, recurse_packages=True, ignore_errors=True):
         full_name = package.__name__ + '.' + name
         try:
             results[full_name] = import_module(full_name)
-        except ImportError:
+        except Exception:
             if not ignore_errors:  # pragma: no cover
                 raise
         if recurse_packages and is_pkg:
             try:
                 results.update(import_submodules(full_name, ignore_errors=ignore_errors))
-            except ImportError:  # pragma: no cover
+            except Exception:  # pragma: no cover
                 if not ignore_errors:
                     raise
     return results
-- 
2.43.0


From 04381a2a16f165ed90ce2862518c7ede04d956bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:44 +0000
Subject: [PATCH 50/68] fix: metaclasses from decorate_some must not change the
 namespaces they are given

---
 whatami/misc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/whatami/misc.py b/whatami/misc.py
index c01e34a..a805bc9 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -687,6 +687,7 @@ def decorate_some(name='DecorateSome', **decorators):
     def new_decorate(mcs, name, bases=None, d=None):
         # Use a closure to keep metaclass parameters
         # Alternative: add a "decorators" member to the metaclass "mcs" dictionary
+        d = dict(d)  # N.B. copy, do not decorate again if the namespace is reused to create another class
         for attr, attr_decorators in decorators.items():
             if attr in d:
                 if not is_iterable(attr_decorators):
-- 
2.43.0


From d7324f62b6fa209d4003bced67ce6b4395986200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 51/68] fix: ids with repeated parameters must be rejected
 instead of losing values

---
 whatami/parsers.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 24bc592..2d30306 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -6,7 +6,7 @@
 
 from __future__ import print_function, absolute_import, unicode_literals  # N.B. arpeggio wants unicode
 import re
-from arpeggio import ParserPython, Optional, ZeroOrMore, StrMatch, RegExMatch, EOF, PTNodeVisitor, visit_parse_tree
+from arpeggio import ParserPython, Optional, ZeroOrMore, StrMatch, RegExMatch, EOF, NoMatch, PTNodeVisitor, visit_parse_tree
 from future.utils import string_types
 from whatami import maybe_import
 
@@ -127,6 +127,13 @@ def build_whatami_parser(reduce_tree=False, debug=False):
     return ParserPython(whatami_id_top, reduce_tree=reduce_tree, debug=debug)
 
 
+class _NotAnId(Exception):
+    """The text in the node follows the grammar, but no configuration can have it in its id."""
+    def __init__(self, node):
+        super(_NotAnId, self).__init__(node.position)
+        self.position = node.position
+
+
 class WhatamiTreeVisitor(PTNodeVisitor):
     """A tree visitor for whatami id ASTs that returns a `whatami.What` object.
 
@@ -244,7 +251,9 @@ class WhatamiTreeVisitor(PTNodeVisitor):
         return children[0], WhatamiTreeVisitor.nonenode2none(children[1])
 
     @staticmethod
-    def visit_kvs(_, children):
+    def visit_kvs(node, children):
+        if len(set(key for key, _ in children)) < len(children):
+            raise _NotAnId(node)  # repeated parameters
         return children
 
     # --- Top level
@@ -307,6 +316,8 @@ def parse_whatid(id_string, parser=None, visitor=None):
         visitor = DEFAULT_WHATAMI_VISITOR
     try:
         return visit_parse_tree(parser.parse(id_string), visitor=visitor)
+    except _NotAnId as error:
+        raise NoMatch([], error.position, parser)
     except TypeError:
         # Remove this once arpeggio is released with this fix:
         # https://github.com/igordejanovic/Arpeggio/pull/21
-- 
2.43.0


From b8fc696cafe3d9649655c7a10918fce7df690319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:30 +0000
Subject: [PATCH 52/68] fix: ids with unhashable set elements or dictionary
 keys must be rejected as any other wrong id

---
 whatami/parsers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 2d30306..9a4fce0 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -223,18 +223,24 @@ class WhatamiTreeVisitor(PTNodeVisitor):
         return children
 
     @staticmethod
-    def visit_a_dict(_, children):
+    def visit_a_dict(node, children):
         if len(children) == 0:
             return {}
-        return dict(list(children[0]))
+        try:
+            return dict(list(children[0]))
+        except TypeError:  # unhashable keys
+            raise _NotAnId(node)
 
     @staticmethod
     def visit_an_empty_set(*_):
         return set()
 
     @staticmethod
-    def visit_a_non_empty_set(_, children):
-        return set(list(children[0]))
+    def visit_a_non_empty_set(node, children):
+        try:
+            return set(list(children[0]))
+        except TypeError:  # unhashable elements
+            raise _NotAnId(node)
 
     @staticmethod
     def visit_a_frozenset(_, children):
-- 
2.43.0


From f4ba4b9c7ea804a18d3acc5110b440bda309038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:35 +0000
Subject: [PATCH 53/68] fix: objects with members named func, args and keywords
 are not partials unless they can be called

---
 whatami/misc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index a805bc9..c95978d 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -225,9 +225,11 @@ def call_dict(depth=1, ignores=('cls', 'self'), ignore_varargs=False, overrides=
 def curry2partial(obj):
     """Transforms toolz/cytoolz curry sugar into standard partials."""
     try:
-        return partial(obj.func, *obj.args, **obj.keywords)
+        if callable(obj) and isinstance(obj.args, tuple):  # N.B. other objects can have members with these names
+            return partial(obj.func, *obj.args, **obj.keywords)
     except (AttributeError, TypeError):
-        return obj
+        pass
+    return obj
 
 
 def callable2call(c, closure_extractor=lambda c: c):
-- 
2.43.0


From 2f7e121dce1062551cf84e2bd8d3e4053b641606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:16 +0000
Subject: [PATCH 54/68] fix: whatareyou must not ask for the representation of
 objects, it can depend on their what

---
 whatami/what.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index 4f511f3..da5545a 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -351,6 +351,9 @@ def whatareyou(obj,
     mola(n=7)
     """
     try:
+        if not callable(obj):
+            # N.B. the error of callable2call shows obj, and its representation can fail, be costly or depend on its what
+            raise ValueError('not a callable')
         name, cd = callable2call(obj)
     except (ValueError, TypeError, AttributeError):  # N.B. callable instances do not have __name__
         name = obj.__class__.__name__
-- 
2.43.0


From 7906ef761da6ccb63cacfaed54d676f69e9aa953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 55/68] fix: adding records must not replace those added
 meanwhile by the postprocessors

---
 whatami/registry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/whatami/registry.py b/whatami/registry.py
index 18e194c..2c6fd0f 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -658,6 +658,10 @@ class Recorder(with_metaclass(_RecorderMeta)):
                 record = function(an_id, record, self)
             # Add record to registry
             records[an_id] = record
+        # Check id uniqueness again, postprocessors can also add records to the registry
+        for an_id in records:
+            if an_id in self._registry:
+                raise Exception('"%s" is already in the registry' % an_id)
         # All correct, commit
         self._registry.update(records)
         return records
-- 
2.43.0


From 6b21759acb78f79255e87d38fca4ed1602dbeb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:06 +0000
Subject: [PATCH 56/68] fix: do not lose the keyword-only parameters of
 functions and partials

---
 whatami/misc.py    | 17 +++++++++++++++--
 whatami/plugins.py |  3 ++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index c95978d..2c44f8a 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -69,6 +69,17 @@ def getargspec(func):  # pragma: no cover
         return inspect.getargspec(func)
 
 
+def _kwonly_argspec(func):
+    """
+    Returns a 2-tuple (keyword-only args, {keyword-only arg: default}) for func.
+    """
+    if PY3:
+        # noinspection PyUnresolvedReferences
+        spec = inspect.getfullargspec(func)
+        return spec.kwonlyargs, spec.kwonlydefaults or {}
+    return [], {}  # pragma: no cover
+
+
 def init_argspec(obj):
     """
     Returns a named 4-tuple (args, varargs, varkw, defaults) for the constructor of obj.
@@ -304,7 +315,8 @@ def callable2call(c, closure_extractor=lambda c: c):
             args, _, _, defaults = getargspec(c)
             defaults = [] if not defaults else defaults
             args = [] if not args else args
-            args_set = set(args)
+            kwonly_args, kwonly_defaults = _kwonly_argspec(c)
+            args_set = set(args) | set(kwonly_args)
             # Check that everything is fine...
             defaults = dict(zip(args[-len(defaults):], defaults))
             pos2keyword = dict(zip(args[:len(positional)], positional))  # N.B. order matters
@@ -319,7 +331,8 @@ def callable2call(c, closure_extractor=lambda c: c):
                 raise ValueError('There are too many positional arguments indicated '
                                  'for the number of unbound positional parameters left.')
             return c.__name__.replace('<', '').replace('>', ''), \
-                dict(chain(defaults.items(), keywords.items(), pos2keyword.items()))  # N.B. order matters
+                dict(chain(defaults.items(), kwonly_defaults.items(),
+                           keywords.items(), pos2keyword.items()))  # N.B. order matters
         if isinstance(c, partial):
             pkeywords = c.keywords if c.keywords is not None else {}
             return callable2call_recursive(
diff --git a/whatami/plugins.py b/whatami/plugins.py
index 83aa080..bac96b7 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -16,7 +16,7 @@ from whatami import getargspec, is_whatable
 from whatami.misc import maybe_import
 
 from .what import What, whatareyou, _needs_instance
-from .misc import callable2call, config_dict_for_object, curry2partial
+from .misc import callable2call, config_dict_for_object, curry2partial, _kwonly_argspec
 from .minijoblib.hashing import hasher
 
 
@@ -166,6 +166,7 @@ def function_plugin(v):
         defaults = [] if not defaults else defaults
         args = [] if not args else args
         params_with_defaults = dict(zip(args[-len(defaults):], defaults))
+        params_with_defaults.update(_kwonly_argspec(v)[1])
         name = v.__name__ if v.__name__ != '<lambda>' else 'lambda'
         what = What(name, params_with_defaults)
         return what.id()
-- 
2.43.0


From 272050dbfecab573929b0c1b56dd8b6597f83667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:22 +0000
Subject: [PATCH 57/68] fix: the id of masked arrays (could not be made, did
 not depend on the mask)

---
 whatami/minijoblib/hashing.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index 1918d04..a6025d8 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -263,7 +263,13 @@ class NumpyHasher(Hasher):
             than pickling them. Off course, this is a total abuse of
             the Pickler class.
         """
-        if isinstance(obj, self.np.ndarray) and not obj.dtype.hasobject:
+        if isinstance(obj, self.np.ma.MaskedArray):
+            # The mask is not part of the buffer of the array
+            if obj is not self.np.ma.masked:
+                mask = self.np.ma.getmaskarray(obj).copy(order='C')
+                fill_value = self.np.array(obj.fill_value, dtype=obj.dtype)
+                obj = (obj.__class__, ('HASHED', obj.data, mask, fill_value))
+        elif isinstance(obj, self.np.ndarray) and not obj.dtype.hasobject:
             # Compute a hash of the object
             # The update function of the hash requires a c_contiguous buffer.
             if obj.shape == ():
-- 
2.43.0


From 1829c9884989d9e10c8b8fac4f9cdd632303bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:24 +0000
Subject: [PATCH 58/68] fix: trimming an id with lone surrogates failed with
 AttributeError

---
 whatami/what.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/whatami/what.py b/whatami/what.py
index da5545a..849ea91 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -308,6 +308,8 @@ class What(object):
         if 0 < maxlength < len(string):
             try:
                 return hashlib.sha1(string.encode('utf-8')).hexdigest()
+            except UnicodeEncodeError:  # lone surrogates (e.g. in names of files with bytes that cannot be decoded)
+                return hashlib.sha1(string.encode('utf-8', 'surrogatepass')).hexdigest()
             except UnicodeError:  # pragma: no cover
                 return hashlib.sha1(string.decode('utf-8').encode('utf-8')).hexdigest()
         return string
-- 
2.43.0


From c11b31b0746cebaacb14e9e4c87b77efd32116be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:37 +0000
Subject: [PATCH 59/68] fix: inserting or dropping plugins without a name (e.g.
 partials) failed with AttributeError instead of ValueError

---
 whatami/plugins.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index bac96b7..328d35e 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -350,7 +350,7 @@ class WhatamiPluginManager(object):
             plugins.remove(plugin)
             cls.PLUGINS = tuple(plugins)
         except ValueError:
-            raise ValueError('cannot drop plugin %s, not in plugins list' % plugin.__name__)
+            raise ValueError('cannot drop plugin %s, not in plugins list' % (getattr(plugin, '__name__', plugin),))
 
     @classmethod
     def insert(cls, plugin, before=anyobject0x_plugin):
@@ -371,7 +371,7 @@ class WhatamiPluginManager(object):
         ValueError if plugin is already in the list of registered plugins of if before is not in the list.
         """
         if plugin in cls.PLUGINS:
-            raise ValueError('cannot insert plugin %s, already in plugins list' % plugin.__name__)
+            raise ValueError('cannot insert plugin %s, already in plugins list' % (getattr(plugin, '__name__', plugin),))
         plugins = list(cls.PLUGINS)
         if before is None:
             plugins.append(plugin)
@@ -380,7 +380,7 @@ class WhatamiPluginManager(object):
                 index = plugins.index(before)
                 plugins.insert(index, plugin)
             except ValueError:
-                raise ValueError('plugin to insert before (%s) not in plugins list' % before.__name__)
+                raise ValueError('plugin to insert before (%s) not in plugins list' % (getattr(before, '__name__', before),))
         cls.PLUGINS = tuple(plugins)
 
     @classmethod
-- 
2.43.0


From f9f61da5de1f5c2f2d03449e1a2c2511698bb56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:14 +0000
Subject: [PATCH 60/68] fix: callable2call rejected tuples with the wrong
 exception

---
 whatami/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/whatami/misc.py b/whatami/misc.py
index 2c44f8a..b7316e8 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -342,7 +342,7 @@ def callable2call(c, closure_extractor=lambda c: c):
         if hasattr(c, '__call__'):
             # No way to get the argspec from anything arriving here (builtins and the like...)
             return c.__name__, keywords
-        raise ValueError('Only callables (partials, functions, builtins...) are allowed, %r is none of them' % c)
+        raise ValueError('Only callables (partials, functions, builtins...) are allowed, %r is none of them' % (c,))
     return callable2call_recursive(c)
 
 
-- 
2.43.0


From 86d74d2b1534b77f76dedc86d4e101b43b394ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:58 +0000
Subject: [PATCH 61/68] fix: positional arguments bound to builtins, classes
 and methods silently left out of the id

---
 whatami/misc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/whatami/misc.py b/whatami/misc.py
index b7316e8..f24ebf9 100644
--- a/whatami/misc.py
+++ b/whatami/misc.py
@@ -341,6 +341,9 @@ def callable2call(c, closure_extractor=lambda c: c):
                 keywords=dict(chain(pkeywords.items(), keywords.items())))   # N.B. order matters
         if hasattr(c, '__call__'):
             # No way to get the argspec from anything arriving here (builtins and the like...)
+            if positional:
+                raise ValueError('Cannot determine the names of the positional arguments indicated for %s, '
+                                 'please bind them by name.' % c.__name__)
             return c.__name__, keywords
         raise ValueError('Only callables (partials, functions, builtins...) are allowed, %r is none of them' % (c,))
     return callable2call_recursive(c)
-- 
2.43.0


From bd1cb3af1431a980eff9e29133d797fa335fd721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:01 +0000
Subject: [PATCH 62/68] fix: adding a repeated id that is a tuple failed with
 the wrong exception

---
 whatami/registry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/registry.py b/whatami/registry.py
index 2c6fd0f..14f6aa3 100644
--- a/whatami/registry.py
+++ b/whatami/registry.py
@@ -632,9 +632,9 @@ class Recorder(with_metaclass(_RecorderMeta)):
         for an_id in ids:
             # Check id uniqueness
             if an_id in self._registry:
-                raise Exception('"%s" is already in the registry' % an_id)
+                raise Exception('"%s" is already in the registry' % (an_id,))
             if an_id in records:
-                raise Exception('"%s" is duplicated' % an_id)
+                raise Exception('"%s" is duplicated' % (an_id,))
             # Create record
             record = {param: values[an_id] for param, values in config_dict.items()
                       if an_id in values}
@@ -661,7 +661,7 @@ class Recorder(with_metaclass(_RecorderMeta)):
         # Check id uniqueness again, postprocessors can also add records to the registry
         for an_id in records:
             if an_id in self._registry:
-                raise Exception('"%s" is already in the registry' % an_id)
+                raise Exception('"%s" is already in the registry' % (an_id,))
         # All correct, commit
         self._registry.update(records)
         return records
-- 
2.43.0


From 409ce1cfd725ba798c020015972b71c65273ed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:12 +0000
Subject: [PATCH 63/68] fix: match_whatids took classes for empty collections
 and tuples for configurations

---
 whatami/whatutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index ac6b75c..d7196d9 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -330,10 +330,10 @@ def match_whatids(whatids, template_whatid, ignored_keys=(),
     def comparable(value):
         # N.B. members of the nested configurations and collections also appear in their own keys
         if isinstance(value, What):
-            return value.name, value.out_name
+            return 'what', value.name, value.out_name
         if collections_too and recursive and isinstance(value, (list, tuple, dict)):
-            return type(value)
-        return value
+            return 'collection', type(value)
+        return 'value', value
 
     def not_ignored_values(keys, values):
         return [comparable(value) for key, value in zip(keys, values)
-- 
2.43.0


From bcd6cc0257c82a3581aa43284cf4dc92e559921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:13 +0000
Subject: [PATCH 64/68] fix: flattened keys do not depend on the order of
 dictionaries with partially ordered keys

---
 whatami/what.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/whatami/what.py b/whatami/what.py
index 849ea91..02ad181 100644
--- a/whatami/what.py
+++ b/whatami/what.py
@@ -179,10 +179,12 @@ class What(object):
             elif isinstance(what, (list, tuple)) and collections_too:
                 kvs = enumerate(what)
             elif isinstance(what, dict) and collections_too:
+                kvs = sorted(what.items(), key=lambda item: WhatamiPluginManager.build_string(item[0]))
                 try:
-                    kvs = sorted(what.items(), key=itemgetter(0))
+                    # N.B. some keys are only partially ordered (e.g. frozensets), so where we start from matters
+                    kvs = sorted(kvs, key=itemgetter(0))
                 except TypeError:  # keys cannot be compared
-                    kvs = sorted(what.items(), key=lambda item: WhatamiPluginManager.build_string(item[0]))
+                    pass
             else:
                 kvs = ()
             for k, v in kvs:
-- 
2.43.0


From 55fa0603adb536b1409571fce2a547c7d71d1d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:42 +0000
Subject: [PATCH 65/68] fix: estimators do not take the declarations of other
 classes with the same name

---
 whatami/wrappers/what_sklearn.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/whatami/wrappers/what_sklearn.py b/whatami/wrappers/what_sklearn.py
index 7b8c875..f7f0fe1 100644
--- a/whatami/wrappers/what_sklearn.py
+++ b/whatami/wrappers/what_sklearn.py
@@ -598,6 +598,8 @@ def _what_for_sklearn(x, use_short=True):
     """Returns a What configuration for the scikit learn estimator x."""
     name = x.__class__.__name__
     pinfo = _SKLRegistry.get(name, None)
+    if pinfo is not None and pinfo.object is not x.__class__:
+        pinfo = None  # N.B. just another class with the same name
     try:
         configuration_dict = x.get_params(deep=False)   # N.B. we take care of recursing ourselves
     except AttributeError:
-- 
2.43.0


From 8389fe61ace8d368b3d6ff21b899cb3cacb014d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:01 +0000
Subject: [PATCH 66/68] fix: work without numpy and pandas, which are optional
 (has_numpy and has_pandas tell whether they can be imported)

---
 whatami/plugins.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/whatami/plugins.py b/whatami/plugins.py
index 328d35e..ec74723 100644
--- a/whatami/plugins.py
+++ b/whatami/plugins.py
@@ -8,6 +8,7 @@ from future.utils import string_types, PY2
 
 import inspect
 import re
+import types
 from collections import OrderedDict
 from functools import partial
 
@@ -204,12 +205,17 @@ def anyobject_plugin(v):
 hasher = partial(hasher, hash_name='md5')
 
 
+def _is_imported(library):
+    """Returns True iff the result of maybe_import is an actual module."""
+    return issubclass(type(library), types.ModuleType)  # N.B. accessing any attribute would fail if it is not
+
+
 np = maybe_import('numpy', 'conda')
 
 
 def has_numpy():
     """Returns True iff numpy can be imported."""
-    return inspect.ismodule(np)
+    return _is_imported(np)
 
 
 pd = maybe_import('pandas', 'conda')
@@ -217,26 +223,26 @@ pd = maybe_import('pandas', 'conda')
 
 def has_pandas():
     """Returns True iff pandas can be imported."""
-    return pd is not None
+    return _is_imported(pd)
 
 
 def numpy_plugin(v):
     """Represents numpy arrays as "class(hash='xxx')"."""
-    if np is not None and hasher is not None:
+    if has_numpy() and hasher is not None:
         if isinstance(v, np.ndarray):
             return "%s(hash='%s')" % (v.__class__.__name__, hasher(v))
 
 
 def rng_plugin(v):
     """Represents a numpy rng as a string RandomState(state=xxx)."""
-    if np is not None and hasher is not None:
+    if has_numpy() and hasher is not None:
         if isinstance(v, np.random.RandomState):
             return "%s(state=%s)" % (v.__class__.__name__, whatareyou(v.__getstate__()).id())
 
 
 def pandas_plugin(v):
     """Represents pandas objects as any of "DataFrame(hash='xxx')" or "Series(hash='xxx')"."""
-    if pd is not None and hasher is not None:
+    if has_pandas() and hasher is not None:
         if isinstance(v, (pd.DataFrame, pd.Series)):
             return "%s(hash='%s')" % (v.__class__.__name__, hasher(v))
     #
-- 
2.43.0


From 757fcd6f6a94780e44311d254c8872ef880a0865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:31 +0000
Subject: [PATCH 67/68] fix: each thread has its own parser, so that ids can be
 parsed from several threads

---
 whatami/parsers.py   | 19 +++++++++++++++----
 whatami/whatutils.py |  9 ++-------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/whatami/parsers.py b/whatami/parsers.py
index 9a4fce0..419242e 100644
--- a/whatami/parsers.py
+++ b/whatami/parsers.py
@@ -6,6 +6,7 @@
 
 from __future__ import print_function, absolute_import, unicode_literals  # N.B. arpeggio wants unicode
 import re
+import threading
 from arpeggio import ParserPython, Optional, ZeroOrMore, StrMatch, RegExMatch, EOF, NoMatch, PTNodeVisitor, visit_parse_tree
 from future.utils import string_types
 from whatami import maybe_import
@@ -278,7 +279,18 @@ class WhatamiTreeVisitor(PTNodeVisitor):
         return children[0]
 
 
-DEFAULT_WHATAMI_PARSER = build_whatami_parser()
+_PARSERS = threading.local()  # parsers hold the state of the parse under way, so each thread needs its own
+
+
+def thread_parser(build_parser=build_whatami_parser):
+    """Returns the parser that the current thread made with build_parser, making it only the first time."""
+    parsers = _PARSERS.__dict__
+    name = build_parser.__name__
+    if name not in parsers:
+        parsers[name] = build_parser()
+    return parsers[name]
+
+
 DEFAULT_WHATAMI_VISITOR = WhatamiTreeVisitor()
 
 
@@ -315,9 +327,8 @@ def parse_whatid(id_string, parser=None, visitor=None):
     >>> print(what.conf['n_jobs'].conf['here'])
     100
     """
-    global DEFAULT_WHATAMI_PARSER
     if parser is None:
-        parser = DEFAULT_WHATAMI_PARSER
+        parser = thread_parser()
     if visitor is None:
         visitor = DEFAULT_WHATAMI_VISITOR
     try:
@@ -327,7 +338,7 @@ def parse_whatid(id_string, parser=None, visitor=None):
     except TypeError:
         # Remove this once arpeggio is released with this fix:
         # https://github.com/igordejanovic/Arpeggio/pull/21
-        DEFAULT_WHATAMI_PARSER = build_whatami_parser()
+        _PARSERS.__dict__.clear()
         raise
 
 # --- Maintenance for old whatami id strings
diff --git a/whatami/whatutils.py b/whatami/whatutils.py
index d7196d9..773b11a 100644
--- a/whatami/whatutils.py
+++ b/whatami/whatutils.py
@@ -15,7 +15,7 @@ from operator import itemgetter
 from arpeggio import NoMatch
 
 from whatami import (config_dict_for_object,
-                     parse_whatid, build_oldwhatami_parser,
+                     parse_whatid, thread_parser, build_oldwhatami_parser,
                      whatareyou, What, is_whatable, maybe_import)
 from .what import _needs_instance
 
@@ -455,8 +455,6 @@ class FunctionLike(object):
 
 # --- Maintenance
 
-OLD_WHATID_PARSER = None
-
 
 def oldid2what(oldwhatid):
     """Parses an old-style whatami id into a What object.
@@ -477,15 +475,12 @@ def oldid2what(oldwhatid):
     ...
     ValueError: whatid defines out ambiguously ("acc" and "vel")
     """
-    global OLD_WHATID_PARSER
-    if OLD_WHATID_PARSER is None:
-        OLD_WHATID_PARSER = build_oldwhatami_parser()
     out = None
     if oldwhatid.startswith('out='):
         out, _, oldwhatid = oldwhatid.partition('#')
         out = out[4:]
 
-    what = id2what(oldwhatid, parser=OLD_WHATID_PARSER)
+    what = id2what(oldwhatid, parser=thread_parser(build_oldwhatami_parser))
 
     if out is not None:
         if 'out' in what.conf:
-- 
2.43.0


From 8beefffce0198b4581b62240d094307503ed5349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:43 +0000
Subject: [PATCH 68/68] fix: the ids of data frames with periods must not
 depend on how they were made (copied, pickled)

---
 whatami/minijoblib/hashing.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/whatami/minijoblib/hashing.py b/whatami/minijoblib/hashing.py
index a6025d8..7e7bef2 100644
--- a/whatami/minijoblib/hashing.py
+++ b/whatami/minijoblib/hashing.py
@@ -207,15 +207,21 @@ class NumpyHasher(Hasher):
     def save_reduce(self, func, args, state=None, *rest, **kwargs):
         """ Subclass to leave out the caches that pandas arrays include in
             their state, because they depend on how the array has been used.
+            The same happens with the frequency of the period arrays, that is
+            also part of their dtype.
         """
+        cls = type(kwargs.get('obj'))
+        caches = ['_cache'] + ['_freq'] * (cls.__name__ == 'PeriodArray')
+
         def without_cache(state):
             if isinstance(state, tuple):
                 return tuple(map(without_cache, state))
-            if isinstance(state, dict) and '_cache' in state:
-                return dict((k, v) for k, v in state.items() if k != '_cache')
+            if isinstance(state, dict) and any(k in state for k in caches):
+                return dict((k, v) for k, v in state.items()
+                            if k not in caches)
             return state
 
-        module = str(getattr(type(kwargs.get('obj')), '__module__', ''))
+        module = str(getattr(cls, '__module__', ''))
         if module.split('.')[0] == 'pandas':
             state = without_cache(state)
         Hasher.save_reduce(self, func, args, state, *rest, **kwargs)
-- 
2.43.0

