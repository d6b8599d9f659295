From c392bd5b781e760120b66f33a0ed113047ed528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:17 +0000
Subject: [PATCH 01/99] fix: write.CorefHtml wrote its gzipped documents in the
 locale encoding, not in UTF-8

---
 udapi/block/write/corefhtml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index 1d5d471..dd99579 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -317,7 +317,7 @@ class CorefHtml(BaseWriter):
         orig_stdout = sys.stdout
         try:
             for i, ud_doc in enumerate(ud_docs[1:], 2):
-                sys.stdout = gzip.open(f"{self.docs_dir}/doc{i}.html.gz", 'wt')
+                sys.stdout = gzip.open(f"{self.docs_dir}/doc{i}.html.gz", 'wt', encoding='utf-8')
                 self.process_ud_doc(ud_doc, i)
                 sys.stdout.close()
         finally:
@@ -331,7 +331,7 @@ class CorefHtml(BaseWriter):
             print('];')
             try:
                 for i, ud_doc in enumerate(ud_docs[1:], 2):
-                    sys.stdout = gzip.open(f"{self.docs_dir}/doc{i}.json.gz", 'wt')
+                    sys.stdout = gzip.open(f"{self.docs_dir}/doc{i}.json.gz", 'wt', encoding='utf-8')
                     WRITE_HTML.print_doc_json(ud_doc)
                     sys.stdout.close()
             finally:
-- 
2.43.0


From 0f3d2ad5252278e1565d90f6b2237663e028f3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:18 +0000
Subject: [PATCH 02/99] fix: filelists and eval result files were read in the
 locale encoding

---
 udapi/block/eval/conll17.py | 2 +-
 udapi/block/eval/conll18.py | 2 +-
 udapi/core/files.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/eval/conll17.py b/udapi/block/eval/conll17.py
index 61e8638..0dd1daa 100644
--- a/udapi/block/eval/conll17.py
+++ b/udapi/block/eval/conll17.py
@@ -226,7 +226,7 @@ def main():
         for i_test, test in enumerate(tests):
             filename = '/'.join((res_dir, system, test))
             try:
-                with open(filename) as res_file:
+                with open(filename, encoding='utf-8') as res_file:
                     sys_results.extend([[i_test] + list(map(int, l.split())) for l in res_file])
             except FileNotFoundError:
                 logging.warning(filename + ' not found')
diff --git a/udapi/block/eval/conll18.py b/udapi/block/eval/conll18.py
index 22f42a4..1ced833 100644
--- a/udapi/block/eval/conll18.py
+++ b/udapi/block/eval/conll18.py
@@ -275,7 +275,7 @@ def main():
         for i_test, test in enumerate(tests):
             filename = '/'.join((res_dir, system, test))
             try:
-                with open(filename) as res_file:
+                with open(filename, encoding='utf-8') as res_file:
                     sys_results.extend([[i_test] + list(map(int, l.split())) for l in res_file])
             except FileNotFoundError:
                 logging.warning(filename + ' not found')
diff --git a/udapi/core/files.py b/udapi/core/files.py
index be59b2c..87de976 100644
--- a/udapi/core/files.py
+++ b/udapi/core/files.py
@@ -70,7 +70,7 @@ class Files(object):
                 raise RuntimeError('No filenames matched "%s" pattern' % pattern)
         elif token[0] == '@':
             filelist_name = sys.stdin if token == '@-' else token[1:]
-            with open(filelist_name) as filelist:
+            with open(filelist_name, encoding='utf-8') as filelist:
                 filenames = [line.rstrip('\n') for line in filelist]
             directory = os.path.dirname(token[1:])
             if directory != '.':
-- 
2.43.0


From 9405d1a9acc6eed657be9f8d0232a7bec31ea941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:36 +0000
Subject: [PATCH 03/99] fix: corefud.Load and corefud.IndexClusters skipped the
 Block constructor and rejected common parameters

---
 udapi/block/corefud/indexclusters.py | 3 ++-
 udapi/block/corefud/load.py          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/indexclusters.py b/udapi/block/corefud/indexclusters.py
index 3f5d74d..45b5b95 100644
--- a/udapi/block/corefud/indexclusters.py
+++ b/udapi/block/corefud/indexclusters.py
@@ -18,7 +18,8 @@ class IndexClusters(Block):
             prefix of the IDs before the number (default="e")
     """
 
-    def __init__(self, start=1, prefix='e'):
+    def __init__(self, start=1, prefix='e', **kwargs):
+        super().__init__(**kwargs)
         self.start = start
         self.prefix = prefix
 
diff --git a/udapi/block/corefud/load.py b/udapi/block/corefud/load.py
index 92773dc..c6e976b 100644
--- a/udapi/block/corefud/load.py
+++ b/udapi/block/corefud/load.py
@@ -4,7 +4,8 @@ import udapi.core.coref
 class Load(Block):
     """Load coreference-related MISC attributes into memory. Allow lenient mode by strict=0."""
 
-    def __init__(self, strict=True):
+    def __init__(self, strict=True, **kwargs):
+        super().__init__(**kwargs)
         self.strict = strict
 
     def process_document(self, doc):
-- 
2.43.0


From 9a9189eecb2150b1124e35cf185678b981437fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 04/99] fix: assigning a DualDict to itself (e.g. node.feats =
 node.feats) lost its content

---
 udapi/core/coref.py    | 3 ++-
 udapi/core/dualdict.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index aa27e6a..b5795b4 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -1080,7 +1080,8 @@ class OtherDualDict(collections.abc.MutableMapping):
             self._dict.clear()
             self._string = value
         elif isinstance(value, collections.abc.Mapping):
+            value = dict(value)  # read it all first, `value` may be this very object
             self._string = None
-            self._dict = dict(value)
+            self._dict = value
         else:
             raise ValueError("Unsupported value type " + str(value))
diff --git a/udapi/core/dualdict.py b/udapi/core/dualdict.py
index ba0129e..d2dd5a4 100644
--- a/udapi/core/dualdict.py
+++ b/udapi/core/dualdict.py
@@ -115,7 +115,8 @@ class DualDict(collections.abc.MutableMapping):
             self._dict.clear()
             self._string = value if value != '' else '_'
         elif isinstance(value, collections.abc.Mapping):
+            value = dict(value)  # read it all first, `value` may be this very object
             self._string = None
-            self._dict = dict(value)
+            self._dict = value
         else:
             raise ValueError("Unsupported value type " + str(value))
-- 
2.43.0


From 854c6fa9d50b056d7a978fb8ac2ffffea6ee0beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 05/99] fix: OtherDualDict.clear stored '_' (a name, not the
 empty mapping)

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index b5795b4..6ec77b8 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -1058,7 +1058,7 @@ class OtherDualDict(collections.abc.MutableMapping):
         return self._dict.__contains__(key)
 
     def clear(self):
-        self._string = '_'
+        self._string = ''
         self._dict.clear()
 
     def copy(self):
-- 
2.43.0


From d30a4b5e95e6ecbb03aaa376310647fda753fbc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 06/99] fix: OtherDualDict could not store a name without a
 value (True), although it reads one

---
 udapi/core/coref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 6ec77b8..05f949f 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -1034,7 +1034,8 @@ class OtherDualDict(collections.abc.MutableMapping):
         if value is None or value == '':
             self.__delitem__(key)
         else:
-            value = value.replace(',', '%2C') # TODO report a warning? Escape also '|' and '-'?
+            if value is not True:  # True marks a name without a value
+                value = value.replace(',', '%2C') # TODO report a warning? Escape also '|' and '-'?
             self._dict[key] = value
 
     def __delitem__(self, key):
-- 
2.43.0


From 61a1b0f625e4e551e935f9b113ad307b77b0721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:37 +0000
Subject: [PATCH 07/99] fix: more than nine empty nodes after one node crashed
 in OrdTuple

---
 udapi/core/node.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 3897c3a..cafaad4 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -6,6 +6,7 @@ and function `find_minimal_common_treelet`.
 """
 import logging
 import functools
+import re
 
 import udapi.core.coref
 from udapi.block.write.textmodetrees import TextModeTrees
@@ -464,7 +465,7 @@ class Node(object):
                 if isinstance(new_ord, OrdTuple):
                     new_ord.increase()
                 elif new_ord == base_ord + 0.9:
-                    new_ord = OrdTuple(base_ord, 10)
+                    new_ord = OrdTuple(f"{base_ord}.10")
                 else:
                     new_ord = round(new_ord+0.1, 1)
         new_node._ord = new_ord
@@ -1122,7 +1123,7 @@ class OrdTuple:
 
     def increase(self):
         """Increment the decimal part of this ord."""
-        self._key = (self.key[0], self._key[1]+1)
+        self._key = (self._key[0], self._key[1]+1)
 
 
 # Implementation note on ListOfNodes
-- 
2.43.0


From 2f85af99d805582d8272daf16667deea50ef44ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:37 +0000
Subject: [PATCH 08/99] fix: store_coref_to_misc crashed with NameError on an
 eid with forbidden characters

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 05f949f..927897f 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -768,7 +768,7 @@ def load_coref_from_misc(doc, strict=True):
     doc._eid_to_entity = {c._eid: c for c in sorted(entities.values())}
 
 
-def store_coref_to_misc(doc):
+def store_coref_to_misc(doc, strict=False):
     if not doc._eid_to_entity:
         return
 
-- 
2.43.0


From 14764f39154cb3889f01cd7ee1f6417f1b6b14eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:37 +0000
Subject: [PATCH 09/99] fix: corefud.MoveHead bugs=mark crashed with NameError
 on an empty node without non-empty parent

---
 udapi/block/corefud/movehead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/movehead.py b/udapi/block/corefud/movehead.py
index 00a32e9..7b287f0 100644
--- a/udapi/block/corefud/movehead.py
+++ b/udapi/block/corefud/movehead.py
@@ -53,7 +53,7 @@ class MoveHead(Block):
                     if 'warn' in self.bugs:
                         logging.warning(f"could not find non-empty parent of {empty_node} for mention {mention.head}")
                     if 'mark' in self.bugs:
-                        node.misc['Bug'] = 'no-parent-of-empty'
+                        empty_node.misc['Bug'] = 'no-parent-of-empty'
             non_empty.sort()
 
         # Fourth, check if there is a node within the enh_heads governing all the mention nodes
-- 
2.43.0


From 394130e94afe40b44ea5f7ff3a2c3639401d01bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:37 +0000
Subject: [PATCH 10/99] fix: write.TextModeTreesHtml zones_in_rows judged a
 tree outside zones by another tree's nodes (or crashed)

---
 udapi/block/write/textmodetreeshtml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/textmodetreeshtml.py b/udapi/block/write/textmodetreeshtml.py
index 0ad39da..9ad639a 100644
--- a/udapi/block/write/textmodetreeshtml.py
+++ b/udapi/block/write/textmodetreeshtml.py
@@ -98,8 +98,8 @@ class TextModeTreesHtml(TextModeTrees):
                         allnodes = [tree] + tree.descendants_and_empty
                     else:
                         allnodes = tree.descendants(add_self=1)
-                if self.should_print_tree(tree, allnodes):
-                    marked_trees.append(tree)
+                    if self.should_print_tree(tree, allnodes):
+                        marked_trees.append(tree)
             if marked_trees:
                 if self.whole_bundle:
                     marked_trees = bundle
-- 
2.43.0


From ebe05506d8e54bbea7049017b03cd070a4821b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:34 +0000
Subject: [PATCH 11/99] fix: attach a node in a self-loop only once when
 fix_cycles is used in read.Conllu

---
 udapi/block/read/conllu.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index b485c17..0881d43 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -197,8 +197,7 @@ class Conllu(BaseReader):
             if node is parent:
                 if self.fix_cycles:
                     logging.warning("Ignoring a cycle (attaching to the root instead):\n%s", node)
-                    node._parent = root
-                    root._children.append(node)
+                    parent = root
                 else:
                     raise ValueError(f"Detected a cycle: {node} attached to itself")
             elif node._children:
-- 
2.43.0


From c9bc414eb0ad22e39a761431a5d103cf3cd662c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 12/99] fix: reject a parent from another tree before detaching
 the node from its old parent

---
 udapi/core/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index cafaad4..16d492c 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -335,10 +335,10 @@ class Node(object):
         # Remove the current Node from the children of the old parent.
         # Forbid moving nodes from one tree to another using parent setter.
         if self._parent:
-            self._parent._children.remove(self)
             if self._parent._root is not new_parent._root:
                 raise ValueError('Cannot move nodes between trees with parent setter, '
                                  'use new_root.steal_nodes(nodes_to_be_moved) instead')
+            self._parent._children.remove(self)
         # Set the new parent.
         self._parent = new_parent
 
-- 
2.43.0


From a73981772a45697aeaf7e89da368f888f16f1809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 13/99] fix: steal_nodes keeps the words, tokens and ords of
 both trees consistent

---
 udapi/core/root.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index abf36a7..53eb30a 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -288,13 +288,17 @@ class Root(Node):
                 self._children.append(node)
         if whole_tree:
             old_root._descendants = []
+            for mwt in old_root.multiword_tokens:
+                mwt.root = self
             self._mwts += old_root.multiword_tokens
             old_root.multiword_tokens = []
         else:
             old_root._descendants = [n for n in old_root._descendants if n not in nodes]
-            mwt = node.multiword_token
+            for (old_ord, node) in enumerate(old_root._descendants, 1):
+                node.ord = old_ord
             for node in nodes:
-                if mwt:
+                mwt = node.multiword_token
+                if mwt and mwt.root is old_root:
                     words = [w for w in mwt.words if w in nodes]
                     mwt.remove()
                     self.create_multiword_token(words=words, form=mwt.form, misc=mwt.misc)
-- 
2.43.0


From bf81492ee0b946b01731f235e9dbbf0b79a62a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 14/99] fix: flatten resets all deprels as documented

---
 udapi/core/root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 53eb30a..7e0f7fe 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -317,4 +317,5 @@ class Root(Node):
         self._children = self._descendants[:]
         for node in self._children:
             node._parent = self
+            node.deprel = deprel
             node._children.clear()
-- 
2.43.0


From c84c8fb3b55b61667e0174929b19726ee6eb7ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:41 +0000
Subject: [PATCH 15/99] fix: multiword tokens returned by tool.UDPipeOnline
 belong to the tree they are moved to

---
 udapi/tool/udpipeonline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/tool/udpipeonline.py b/udapi/tool/udpipeonline.py
index f0a835c..b6df579 100644
--- a/udapi/tool/udpipeonline.py
+++ b/udapi/tool/udpipeonline.py
@@ -120,6 +120,8 @@ class UDPipeOnline:
             node._parent = root
         for node in root._descendants:
             node._root = root
+        for mwt in root._mwts:
+            mwt.root = root
         trees[0] = root
         return trees
 
-- 
2.43.0


From 14f2910e58cde24357d25224084beae9a19c0f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 16/99] fix: a tree rejected by bundle.add_tree keeps its zone

---
 udapi/core/bundle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 0a637f0..e2ef93a 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -88,9 +88,9 @@ class Bundle(object):
 
     def add_tree(self, root):
         """Add an existing tree to the bundle."""
-        if root.zone is None:
-            root._zone = ''
-        self.check_zone(root.zone)
+        zone = '' if root.zone is None else root.zone
+        self.check_zone(zone)
+        root._zone = zone
         if self._bundle_id:
             root._sent_id = self._bundle_id
             if root.zone:
-- 
2.43.0


From 26089f89f711817d2ee67c6284aefd9513702270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 17/99] fix: setting bundle_id gave trees with the empty zone a
 sent_id ending with a slash

---
 udapi/core/bundle.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index e2ef93a..a8ff7a7 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -32,11 +32,9 @@ class Bundle(object):
     @bundle_id.setter
     def bundle_id(self, bundle_id):
         self._bundle_id = bundle_id
-        if len(self.trees) == 1 and self.trees[0].zone == '':
-            self.trees[0]._sent_id = bundle_id
-        else:
-            for tree in self.trees:
-                tree._sent_id = bundle_id + '/' + tree.zone  # pylint: disable=protected-access
+        for tree in self.trees:
+            slashzone = '/' + tree.zone if tree.zone else ''
+            tree._sent_id = bundle_id + slashzone  # pylint: disable=protected-access
 
     def __str__(self):
         if self._bundle_id is None:
-- 
2.43.0


From ea0f56313f1800912ba7eebf6c7345193f7c7e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 18/99] fix: an invalid zone in a new sent_id is rejected
 before changing the bundle_id; keeping the zone is allowed

---
 udapi/core/root.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 7e0f7fe..9cee1b5 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -55,9 +55,9 @@ class Root(Node):
     def sent_id(self, sent_id):
         if self._bundle is not None:
             parts = sent_id.split('/', 1)
-            self._bundle.bundle_id = parts[0]
-            if len(parts) == 2:
+            if len(parts) == 2 and parts[1] != self._zone:
                 self.zone = parts[1]
+            self._bundle.bundle_id = parts[0]
         self._sent_id = sent_id
 
     def address(self):
-- 
2.43.0


From c70cb5cc834f36825d94426830677b0d20e40939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 19/99] fix: create_mention with an invalid span left a stray
 mention in the entity

---
 udapi/core/coref.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 927897f..a6e061e 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -375,16 +375,18 @@ class CorefEntity(object):
             raise ValueError("Cannot specify both words and span")
         if head and words and head not in words:
             raise ValueError(f"Head {head} is not among the specified words")
-        if head is None and words is None:
+        if head is None and not words:
             raise ValueError("Either head or words must be specified")
         if head is None:
             head = words[0]
+        if span:
+            words = span_to_nodes(head.root, span)
+            if head not in words:
+                raise ValueError(f"Head {head} is not within the span {span}")
 
         mention = CorefMention(words=[head], head=head, entity=self)
         if words:
             mention.words = words
-        if span:
-            mention.span = span
         self._mentions.sort()
         return mention
 
-- 
2.43.0


From 6e5b386410100879b49103cc151880fc58ed0505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 20/99] fix: an error when deserializing deps left an
 incomplete list, which replaced raw_deps

---
 udapi/core/node.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 16d492c..ba95ed5 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -275,9 +275,10 @@ class Node(object):
         """
         if self._deps is None:
             # Create a list of secondary dependencies.
-            self._deps = list()
+            deps = list()
 
             if self._raw_deps == '_':
+                self._deps = deps
                 return self._deps
 
             # Obtain a list of all nodes in the dependency tree.
@@ -294,7 +295,8 @@ class Node(object):
                         raise ValueError(f'Empty node with ord={head} not found')
                 else:
                     parent = nodes[int(head)]
-                self._deps.append({'parent': parent, 'deprel': deprel})
+                deps.append({'parent': parent, 'deprel': deprel})
+            self._deps = deps
 
         return self._deps
 
-- 
2.43.0


From bb048d893de1cfca510c28f8c11930bd6a061430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 21/99] fix: EmptyNode.remove replaced deps of the remaining
 nodes by a set of keys

---
 udapi/core/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index ba95ed5..2d2d8e6 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -254,6 +254,8 @@ class Node(object):
         #    return self._raw_deps
         if self._deps:
             self._raw_deps = '|'.join(f"{dep['parent']._ord}:{dep['deprel']}" for dep in self._deps)
+        elif self._deps is not None:
+            self._raw_deps = '_'
         return self._raw_deps
 
     @raw_deps.setter
@@ -1077,7 +1079,7 @@ class EmptyNode(Node):
             return # self may be an already deleted node e.g. if n.remove() called twice
         for n in self._root.empty_nodes + self._root._descendants:
             if n._deps:
-                n._deps = {(deprel, parent) for deprel, parent in n._deps if parent != self}
+                n.deps = [dep for dep in n._deps if dep['parent'] is not self]
 
 @functools.total_ordering
 class OrdTuple:
-- 
2.43.0


From ad719b2cd113af0cdd17c5a09998f6d2f70fb7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 22/99] fix: shifting an empty node raises NotImplementedError

---
 udapi/core/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 2d2d8e6..fa64b45 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1066,7 +1066,7 @@ class EmptyNode(Node):
 
     def shift(self, reference_node, after=0, move_subtree=0, reference_subtree=0):
         """Attempts at changing the word order of EmptyNode result in NotImplemented exception."""
-        raise NotImplemented('Empty nodes cannot be re-order using shift* methods yet.')
+        raise NotImplementedError('Empty nodes cannot be re-order using shift* methods yet.')
 
     def remove(self):
         """Delete this empty node."""
-- 
2.43.0


From 162a7e1e5841f9e5f0827ca575592f39344ff954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 23/99] fix: mwt.address() crashed

---
 udapi/core/mwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/mwt.py b/udapi/core/mwt.py
index 3cc95ca..95dc093 100644
--- a/udapi/core/mwt.py
+++ b/udapi/core/mwt.py
@@ -45,7 +45,7 @@ class MWT(object):
 
     def address(self):
         """Full (document-wide) id of the multi-word token."""
-        return self.root.address + '#' + self.ord_range
+        return self.root.address() + '#' + self.ord_range
 
     @staticmethod
     def is_mwt():
-- 
2.43.0


From 53193420b97c55527d856b9db9eb3be0adcda752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 24/99] fix: the error message about an existing eid was not
 formatted

---
 udapi/core/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/document.py b/udapi/core/document.py
index 5f2bdf0..7eac4ed 100644
--- a/udapi/core/document.py
+++ b/udapi/core/document.py
@@ -163,7 +163,7 @@ class Document(object):
                 counter += 1
             eid = f'e{counter}'
         elif self._eid_to_entity.get(eid):
-            raise ValueError("Entity with eid=%s already exists", eid)
+            raise ValueError(f"Entity with eid={eid} already exists")
         entity = udapi.core.coref.CorefEntity(eid, etype)
         self._eid_to_entity[eid] = entity
         return entity
-- 
2.43.0


From f7bd20766b12204338c395322cb872dcfe035ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 25/99] fix: util.JoinSentence with sent_id crashed and joining
 skipped the following sentence

---
 udapi/block/util/joinsentence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/util/joinsentence.py b/udapi/block/util/joinsentence.py
index 578f386..0037def 100644
--- a/udapi/block/util/joinsentence.py
+++ b/udapi/block/util/joinsentence.py
@@ -39,7 +39,7 @@ class JoinSentence(Block):
 
     def process_document(self, document):
         previous_tree = None
-        for bundle_no, bundle in enumerate(document.bundles):
+        for bundle_no, bundle in enumerate(list(document.bundles)):
             # In general, a bundle may contain multiple trees in different zones.
             # In UD data, we always expect just one zone (labeled '') per bundle.
             # This code could be extended to join all zones but we do not try to do it at present.
@@ -75,3 +75,5 @@ class JoinSentence(Block):
                 bundle.remove()
                 # We have found our sentence. No need to process the rest of the document.
                 break
+            else:
+                previous_tree = bundle.get_tree()
-- 
2.43.0


From 624c29fc05128931eb39a54223e020b342d117ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 26/99] fix: corefud.GUM2CorefUD reported and deleted a wrong
 entity for an unclosed mention

---
 udapi/block/corefud/gum2corefud.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/corefud/gum2corefud.py b/udapi/block/corefud/gum2corefud.py
index bf6d798..c608165 100644
--- a/udapi/block/corefud/gum2corefud.py
+++ b/udapi/block/corefud/gum2corefud.py
@@ -103,9 +103,9 @@ class Gum2CorefUD(Block):
 
         for entity_name, mentions in unfinished_mentions.items():
             for mention in mentions:
-                logging.warning(f"Mention {name} opened at {mention.head}, but not closed in the same tree. Deleting.")
+                logging.warning(f"Mention {entity_name} opened at {mention.head}, but not closed in the same tree. Deleting.")
                 entity = mention.entity
                 mention.words = []
                 entity._mentions.remove(mention)
                 if not entity._mentions:
-                    del eid_to_entity[name]
+                    del eid_to_entity[entity_name]
-- 
2.43.0


From 3ba32dc6141c46ae78b4f6c4dfeb045bee304f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:38 +0000
Subject: [PATCH 27/99] fix: mention.entity = None detached the mention from
 its entity before failing

---
 udapi/core/coref.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index a6e061e..0dc9185 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -203,6 +203,8 @@ class CorefMention(object):
 
     @entity.setter
     def entity(self, new_entity):
+        if new_entity is None:
+            raise ValueError(f"Cannot set None as entity of {self}")
         if self._entity is not None:
             original_entity = self._entity
             original_entity._mentions.remove(self)
-- 
2.43.0


From 7533eb5c2facdaa2ebe2e973d740daa67f95e315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:30 +0000
Subject: [PATCH 28/99] fix: RemoveMwt skipped every second multiword token

---
 udapi/block/ud/removemwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/ud/removemwt.py b/udapi/block/ud/removemwt.py
index 99c37b4..80615b5 100644
--- a/udapi/block/ud/removemwt.py
+++ b/udapi/block/ud/removemwt.py
@@ -6,7 +6,7 @@ class RemoveMwt(Block):
     """Substitute MWTs with one word representing the whole MWT."""
 
     def process_tree(self, root):
-        for mwt in root.multiword_tokens:
+        for mwt in list(root.multiword_tokens):
             words = mwt.words
             words[0].form = mwt.form
             words[0].misc = mwt.misc
-- 
2.43.0


From f622726f6408ef4c8bcc76006e10fb6daa35762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:30 +0000
Subject: [PATCH 29/99] fix: hooks and eval code may remove the visited
 mention, MWT or empty node

---
 udapi/core/block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/core/block.py b/udapi/core/block.py
index d293df6..19af047 100644
--- a/udapi/core/block.py
+++ b/udapi/core/block.py
@@ -101,7 +101,7 @@ class Block(object):
                 if p_entity:
                     self.process_coref_entity(entity)
                 else:
-                    for mention in entity.mentions:
+                    for mention in list(entity.mentions):
                         self.process_coref_mention(mention)
 
         if p_bundle or p_tree or p_node or p_empty_node:
@@ -120,13 +120,13 @@ class Block(object):
                                     for node in tree.descendants:
                                         self.process_node(node)
                                 if p_empty_node:
-                                    for empty_node in tree.empty_nodes:
+                                    for empty_node in list(tree.empty_nodes):
                                         self.process_empty_node(empty_node)
 
     @not_overridden
     def process_coref_entity(self, entity):
         """This method is called on each coreference entity in the document."""
-        for mention in entity.mentions:
+        for mention in list(entity.mentions):
             self.process_coref_mention(mention)
 
     @not_overridden
-- 
2.43.0


From 090fec5b568bc0fad3866ca2a8fe8c797aa5995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:30 +0000
Subject: [PATCH 30/99] fix: util.Eval skipped mentions and MWTs following a
 removed one

---
 udapi/block/util/eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/util/eval.py b/udapi/block/util/eval.py
index 6e4f2ac..2ab311c 100644
--- a/udapi/block/util/eval.py
+++ b/udapi/block/util/eval.py
@@ -82,7 +82,7 @@ class Eval(Block):
                     this = entity
                     exec(self.expand_eval_code(self.coref_entity))
                 if self.coref_mention:
-                    for mention in entity.mentions:
+                    for mention in list(entity.mentions):
                         this = mention
                         exec(self.expand_eval_code(self.coref_mention))
 
@@ -123,7 +123,7 @@ class Eval(Block):
                 exec(self.expand_eval_code(self.node))
 
         if self.mwt:
-            for mwt in tree.multiword_tokens:
+            for mwt in list(tree.multiword_tokens):
                 this = mwt
                 exec(self.expand_eval_code(self.mwt))
 
-- 
2.43.0


From 8227799b07660db11980ecf1ac3a6d850dd6be9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:30 +0000
Subject: [PATCH 31/99] fix: bridging and SplitAnte links following a deleted
 one were not checked

---
 udapi/core/coref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 0dc9185..342d4d3 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -529,7 +529,7 @@ class BridgingLinks(collections.abc.MutableSequence):
         return [link.target for link in self._data]
 
     def _delete_targets_without_mentions(self, warn=True):
-        for link in self._data:
+        for link in list(self._data):
             if not link.target.mentions:
                 if warn:
                     logging.warning(f"Entity {link.target.eid} has no mentions, but is referred to in bridging of {self.src_mention.entity.eid}")
@@ -905,7 +905,7 @@ def store_coref_to_misc(doc, strict=False):
     # SplitAnte=e5<e61,e10<e61
     for entity in doc.coref_entities:
         if entity.split_ante:
-            for ante_entity in entity.split_ante:
+            for ante_entity in list(entity.split_ante):
                 if not ante_entity.mentions:
                     logging.warning(f"Entity {ante_entity.eid} has no mentions, but is referred to in SplitAnte of {entity.eid}")
                     entity.split_ante.remove(ante_entity)
-- 
2.43.0


From de3d4868d6ca30035efd1db16280f06de15c3a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:01 +0000
Subject: [PATCH 32/99] fix: a failing writer left sys.stdout redirected to its
 file

---
 udapi/core/basewriter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/udapi/core/basewriter.py b/udapi/core/basewriter.py
index 071ec12..bedebc7 100644
--- a/udapi/core/basewriter.py
+++ b/udapi/core/basewriter.py
@@ -50,6 +50,15 @@ class BaseWriter(Block):
         """Go to the next file and retrun its filename."""
         return self.files.next_filename()
 
+    def apply_on_document(self, document):
+        try:
+            super().apply_on_document(document)
+        except BaseException:
+            redirected, sys.stdout = sys.stdout, self.orig_stdout
+            if redirected is not self.orig_stdout:
+                redirected.close()
+            raise
+
     def before_process_document(self, document):
         if document:
             udapi.core.coref.store_coref_to_misc(document)
-- 
2.43.0


From 5905cb62f022f5ba5aa9aef9271cd6b45869c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:18 +0000
Subject: [PATCH 33/99] fix: write.SentencesHtml escapes title, sentence ids
 and sentences

---
 udapi/block/write/sentenceshtml.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/sentenceshtml.py b/udapi/block/write/sentenceshtml.py
index e0f8724..d30cd44 100644
--- a/udapi/block/write/sentenceshtml.py
+++ b/udapi/block/write/sentenceshtml.py
@@ -1,4 +1,6 @@
 """SentencesHtml class is a writer for sentences in HTML list (could be Google-translated, remembering sentence correspondence)."""
+from html import escape
+
 from udapi.core.basewriter import BaseWriter
 
 
@@ -26,7 +28,7 @@ class SentencesHtml(BaseWriter):
     def before_process_document(self, document):
         super().before_process_document(document)
         print('<!DOCTYPE html>\n<html>\n<head>\n<meta charset="utf-8">')
-        print('<title>' + self.title + '</title>')
+        print('<title>' + escape(self.title) + '</title>')
         print('</head>\n<body>\n<ul>\n')
 
     def after_process_document(self, document):
@@ -34,4 +36,5 @@ class SentencesHtml(BaseWriter):
         super().after_process_document(document)
 
     def process_tree(self, tree):
-        print('  <li id="%s">%s</li>' % (tree.sent_id, tree.get_sentence(self.if_missing)))
+        print('  <li id="%s">%s</li>' 
+              % (escape(str(tree.sent_id)), escape(tree.get_sentence(self.if_missing))))
-- 
2.43.0


From 6bea8c632191230a80379bd515fd930d1b907bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:18 +0000
Subject: [PATCH 34/99] fix: write.Treex escapes all values written to XML

---
 udapi/block/write/treex.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/udapi/block/write/treex.py b/udapi/block/write/treex.py
index 7faea41..07273d3 100644
--- a/udapi/block/write/treex.py
+++ b/udapi/block/write/treex.py
@@ -1,4 +1,6 @@
 """write.Treex is a writer block for Treex XML (e.g. for TrEd editing)."""
+from html import escape
+
 from udapi.core.basewriter import BaseWriter
 
 
@@ -20,7 +22,7 @@ class Treex(BaseWriter):
         super().after_process_document(doc)
 
     def process_bundle(self, bundle):
-        print('    <LM id="%s">\n      <zones>' % bundle.bundle_id)
+        print('    <LM id="%s">\n      <zones>' % escape(str(bundle.bundle_id)))
         super().process_bundle(bundle)
         print('      </zones>\n    </LM>')
 
@@ -29,30 +31,30 @@ class Treex(BaseWriter):
         language, selector = zone_parts if len(zone_parts) == 2 else ('und', tree.zone)
         tree_id = tree.bundle.bundle_id + '-' + language
         ind = ' ' * 8
-        print(ind + "<zone language='%s' selector='%s'>" % (language, selector))
+        print(ind + "<zone language='%s' selector='%s'>" % (escape(language), escape(selector)))
         if tree.text:
-            print(ind + "  <sentence>%s</sentence>" % tree.text)
-        print(ind + "  <trees>\n" + ind + "    <a_tree id='%s'>" % tree_id)
+            print(ind + "  <sentence>%s</sentence>" % escape(tree.text))
+        print(ind + "  <trees>\n" + ind + "    <a_tree id='%s'>" % escape(tree_id))
         self.print_subtree(tree, tree_id, ' ' * 12)
         print(ind + "    </a_tree>\n" + ind + "  </trees>\n" + ind + "</zone>")
 
     def print_subtree(self, node, tree_id, indent):
         """Recrsively print trees in Treex format."""
         if not node.is_root():
-            print(indent + "<LM id='%s-n%s'>" % (tree_id, node.ord))
+            print(indent + "<LM id='%s-n%s'>" % (escape(tree_id), node.ord))
         ind = indent + '  '
         print(ind + "<ord>%s</ord>" % node.ord)
         if not node.is_root():
             if node.form:
-                print(ind + "<form>%s</form>" % node.form)
+                print(ind + "<form>%s</form>" % escape(node.form))
             if node.lemma:
-                print(ind + "<lemma>%s</lemma>" % node.lemma)
+                print(ind + "<lemma>%s</lemma>" % escape(node.lemma))
             if node.upos:
-                print(ind + "<tag>%s</tag>" % node.upos)
+                print(ind + "<tag>%s</tag>" % escape(node.upos))
             if node.deprel:
-                print(ind + "<deprel>%s</deprel>" % node.deprel)
+                print(ind + "<deprel>%s</deprel>" % escape(node.deprel))
             print(ind + "<conll><pos>%s</pos><feat>%s</feat></conll>"
-                  % (node.xpos, str(node.feats)))
+                  % (escape(str(node.xpos)), escape(str(node.feats))))
 
         # TODO misc and deps into wild, but probably need to encode ř as \x{159} etc.
         if node.children:
-- 
2.43.0


From f3c369ba64ed9f369f599f4c37fe33be503c311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:18 +0000
Subject: [PATCH 35/99] fix: write.TextModeTreesHtml escapes title, metadata
 and, without colors, node attributes

---
 udapi/block/write/textmodetrees.py     | 7 +++++++
 udapi/block/write/textmodetreeshtml.py | 9 +++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 885f797..9af99b1 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -370,6 +370,8 @@ class TextModeTrees(BaseWriter):
             if self.color:
                 for i, attr in enumerate(self.attrs):
                     values[i] = self.colorize_attr(attr, values[i], marked)
+            else:
+                values = [self.plain_attr(value) for value in values]
             if not self.color and marked:
                 self.lines[idx] += ' **' + ' '.join(values) + '**'
                 self.lengths[idx] += 4
@@ -386,6 +388,11 @@ class TextModeTrees(BaseWriter):
             return comment
         return self.mark_re.sub(colored(r'\g<0>', None, None, ['reverse', 'bold']), comment)
 
+    @staticmethod
+    def plain_attr(value):
+        """Return an attribute value to be printed without colors."""
+        return value
+
     @staticmethod
     def colorize_attr(attr, value, marked):
         """Return a string with color markup for a given attr and its value."""
diff --git a/udapi/block/write/textmodetreeshtml.py b/udapi/block/write/textmodetreeshtml.py
index 9ad639a..1101d27 100644
--- a/udapi/block/write/textmodetreeshtml.py
+++ b/udapi/block/write/textmodetreeshtml.py
@@ -50,12 +50,12 @@ class TextModeTreesHtml(TextModeTrees):
         # pylint: disable=bad-super-call
         super(TextModeTrees, self).before_process_document(document)
         print('<!DOCTYPE html>\n<html>\n<head>\n<meta charset="utf-8">')
-        print('<title>' + self.title + '</title>')
+        print('<title>' + escape(self.title) + '</title>')
         print('<style>' + STYLE)
         print('</style>\n</head>\n<body>\n<pre>')
         if self.print_doc_meta:
             for key, value in sorted(document.meta.items()):
-                print('%s = %s' % (key, value))
+                print(escape('%s = %s' % (key, value)))
 
     def after_process_document(self, document):
         print("</pre>\n</body>\n</html>")
@@ -79,6 +79,11 @@ class TextModeTreesHtml(TextModeTrees):
         """Return a string with color markup for a given attr and its value."""
         return "<span class='%s'>%s</span>" % (attr, escape(value))
 
+    @staticmethod
+    def plain_attr(value):
+        """Return an attribute value to be printed without colors."""
+        return escape(value)
+
     def print_headers(self, root):
         if self.print_sent_id:
             print('# sent_id = ' + escape(root.address()))
-- 
2.43.0


From 9ba086bc1d0d4cebaa047f1709c9d9b7de44109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:18 +0000
Subject: [PATCH 36/99] fix: write.Html cannot be broken out of by "</script>",
 quotes in ids or quotes in zones

---
 udapi/block/write/html.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/udapi/block/write/html.py b/udapi/block/write/html.py
index ae85d43..43d70f3 100644
--- a/udapi/block/write/html.py
+++ b/udapi/block/write/html.py
@@ -110,12 +110,12 @@ class Html(BaseWriter):
                     first_zone = False
                 else:
                     print(',', end='')
-                print('"%s":{"sentence":"%s",' % (zone, _esc(tree.text)), end='')
-                print('"trees":{"a":{"language":"%s","nodes":[' % zone)
+                print('"%s":{"sentence":"%s",' % (_esc(zone), _esc(tree.text)), end='')
+                print('"trees":{"a":{"language":"%s","nodes":[' % _esc(zone))
                 print('{"id":%s,"parent":null,' % _id(tree), end='')
                 print('"firstson":' + _id(tree.children[0] if tree.children else None), end=',')
-                print('"labels":["zone=%s","id=%s"]}' % (zone, tree.address()))
-                desc += ',["[%s]","label"],[" ","space"]' % zone
+                print('"labels":["zone=%s","id=%s"]}' % (_esc(zone), _esc(tree.address())))
+                desc += ',["[%s]","label"],[" ","space"]' % _esc(zone)
                 for node in tree.descendants:
                     desc += self.print_node_json(node)
                 desc += r',["\n","newline"]'
@@ -133,7 +133,7 @@ class Html(BaseWriter):
         names = ['ord', 'misc', 'form', 'lemma', 'upos', 'xpos', 'feats', 'deprel']
         values = node.get_attrs(names, undefs='')
         order, misc, form, lemma, upos, xpos, feats, deprel = [_esc(x) for x in values]
-        address = node.address()
+        address = _esc(node.address())
         id_node, id_parent = _id(node), _id(node.parent)
         firstson = node.children[0] if node.children else None
         rbrother = next((n for n in node.parent.children if node.precedes(n)), None)
@@ -157,10 +157,11 @@ class Html(BaseWriter):
 def _id(node):
     if node is None:
         return 'null'
-    return '"n%s"' % node.address().replace('#', '-').replace('/', '-')
+    return '"n%s"' % _esc(node.address().replace('#', '-').replace('/', '-'))
 
 
 def _esc(string):
     if string is None:
         string = ''
-    return string.replace('\\', '\\\\').replace('"', r'\"')
+    # The JSON is printed inside <script>, so "</script>" in the data must not end it.
+    return string.replace('\\', '\\\\').replace('"', r'\"').replace('<', r'\u003c')
-- 
2.43.0


From 94939d78661dcc482685aad6962afa025a17e466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:38 +0000
Subject: [PATCH 37/99] fix: write.CorefHtml escapes all values written to HTML

---
 udapi/block/write/corefhtml.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index dd99579..57d154e 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -16,6 +16,7 @@ Non-recommended solution is to run
 from udapi.core.basewriter import BaseWriter
 from udapi.core.coref import span_to_nodes, CorefEntity, CorefMention
 from collections import Counter
+from html import escape
 import udapi.block.write.html
 import gzip
 import sys
@@ -281,9 +282,9 @@ class CorefHtml(BaseWriter):
               '<th title="number of mentions">#m</th>'
               '<th title="a word best representing the entity">word</th></tr></thead>\n<tbody>')
         for entity in doc.coref_entities:
-            print(f'<tr><td><a href="#{_dom_esc(entity.eid)}">{entity.eid}</a></td>'
+            print(f'<tr><td><a href="#{_dom_esc(entity.eid)}">{escape(entity.eid)}</a></td>'
                   f'<td>{len(entity.mentions)}</td>'
-                  f'<td>{self._representative_word(entity)}</td></tr>')
+                  f'<td>{escape(str(self._representative_word(entity)))}</td></tr>')
         print('</tbody></table>')
         print('</div>')
 
@@ -344,7 +345,7 @@ class CorefHtml(BaseWriter):
     def _start_subspan(self, subspan, crossing=False):
         m = subspan.mention
         e = m.entity
-        classes = f'{_dom_esc(e.eid)} {self._mention_ids[m]} {e.etype or "other"} m'
+        classes = f'{_dom_esc(e.eid)} {self._mention_ids[m]} {escape(e.etype or "other")} m'
         title = f'eid={subspan.subspan_eid}\netype={e.etype}\nhead={m.head.form}'
         classes += f" {m.head.upos if m.head.upos in HTYPES else 'OTHER'}"
         title += f'\nhead-upos={m.head.upos}'
@@ -359,6 +360,7 @@ class CorefHtml(BaseWriter):
             title += '\ncrossing'
         if m.other:
             title += f'\n{m.other}'
+        title = escape(title)
         span_id = ''
         if (subspan.subspan_id == '' or subspan.subspan_id.startswith('[1/')) and e.mentions[0] == m:
             span_id = f'id="{_dom_esc(e.eid)}" '
@@ -367,11 +369,11 @@ class CorefHtml(BaseWriter):
         if self.rtl:
             print(f'<span {span_id}class="{classes}" title="{title}" dir="ltr">'
                   f'<span class="labels"><b class="eid">{_dom_esc(subspan.subspan_eid)}</b>'
-                  f' <i class="etype">{e.etype}</i></span><span dir="rtl">', end='')
+                  f' <i class="etype">{escape(str(e.etype))}</i></span><span dir="rtl">', end='')
         else:
             print(f'<span {span_id}class="{classes}" title="{title}">'
                   f'<span class="labels"><b class="eid">{_dom_esc(subspan.subspan_eid)}</b>'
-                  f' <i class="etype">{e.etype}</i></span>', end='')
+                  f' <i class="etype">{escape(str(e.etype))}</i></span>', end='')
 
     def process_tree(self, tree):
         mentions = set()
@@ -386,12 +388,12 @@ class CorefHtml(BaseWriter):
         subspans.sort(reverse=True)
 
         if tree.newdoc:
-            print(f'<hr><h1>{tree.newdoc if tree.newdoc is not True else ""}</h1><hr>')
+            print(f'<hr><h1>{escape(tree.newdoc) if tree.newdoc is not True else ""}</h1><hr>')
         elif tree.newpar:
             print('<hr class="par">')
         opened, prev_node_mention = [], True
         rtl = ' dir="rtl"' if self.rtl else ""
-        print(f'<p class="sentence" data-id="{tree.sent_id}" id="{_id(tree)}"{rtl}>')
+        print(f'<p class="sentence" data-id="{escape(str(tree.sent_id))}" id="{_id(tree)}"{rtl}>')
         for node in nodes_and_empty:
             if not prev_node_mention and subspans and subspans[-1].words[0] == node:
                 print('</span>', end='')
@@ -408,7 +410,7 @@ class CorefHtml(BaseWriter):
                 print('<b class="head">', end='')
             if node.is_empty():
                 print('<i class="empty">', end='')
-            print(node.form, end='')
+            print(escape(str(node.form)), end='')
             if node.is_empty():
                 print('</i>', end='')
             if is_head:
-- 
2.43.0


From d248da8c4a290ef402cb33df25807268e6596cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:38 +0000
Subject: [PATCH 38/99] fix: write.CorefHtml keeps track of the mentions broken
 by a crossing mention

---
 udapi/block/write/corefhtml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/corefhtml.py b/udapi/block/write/corefhtml.py
index 57d154e..3ce57f5 100644
--- a/udapi/block/write/corefhtml.py
+++ b/udapi/block/write/corefhtml.py
@@ -444,7 +444,7 @@ class CorefHtml(BaseWriter):
                 print('</span>' * (len(endings) + len(brokens)), end='')
                 for broken in brokens:
                     self._start_subspan(broken, True)
-                    opened.append(subspan)
+                    opened.append(broken)
 
             if not node.no_space_after:
                 print(' ', end='')
-- 
2.43.0


From 356500b6361dd931e73d1be55a28b8e559c2be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:55 +0000
Subject: [PATCH 39/99] fix: write.Tikz escapes all characters that are special
 in TeX, also in deprels and translations

---
 udapi/block/write/tikz.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/udapi/block/write/tikz.py b/udapi/block/write/tikz.py
index 4007173..3131648 100644
--- a/udapi/block/write/tikz.py
+++ b/udapi/block/write/tikz.py
@@ -4,6 +4,11 @@ import logging
 from udapi.core.basewriter import BaseWriter
 
 
+# Note that \& is a column separator in tikz-dependency.
+TEX_ESCAPES = {'\\': r'\textbackslash{}', '{': r'\{', '}': r'\}', '%': r'\%', '#': r'\#', '_': r'\_', '$': r'\$',
+               '&': r'\symbol{38}', '^': r'\textasciicircum{}', '~': r'\textasciitilde{}', '[': '$[$', ']': '$]$'}
+
+
 class Tikz(BaseWriter):
     r"""A writer of files in the LaTeX with tikz-dependency format.
 
@@ -97,7 +102,7 @@ class Tikz(BaseWriter):
         super().after_process_document(doc)
 
     def _tex_escape(self, string):
-        return string.replace('_', r'\_').replace('$', '\$').replace('[', '$[$').replace(']', '$]$')
+        return ''.join(TEX_ESCAPES.get(char, char) for char in string)
 
     def process_tree(self, tree):
         print(r'\begin{dependency}')
@@ -138,19 +143,20 @@ class Tikz(BaseWriter):
                     print('')
                 else:
                     print(r' \draw[depedge] (w%d)--node[deplabel] {%s} (w%d);'
-                          % (node.ord, node.deprel, node.parent.ord))
+                          % (node.ord, self._tex_escape(node.deprel), node.parent.ord))
         else:
             for node in nodes:
                 if node.parent.is_root():
                     print(r'\deproot{%d}{root}' % node.ord)
                 else:
-                    print(r'\depedge{%d}{%d}{%s}' % (node.parent.ord, node.ord, node.deprel))
+                    print(r'\depedge{%d}{%d}{%s}' % (node.parent.ord, node.ord, self._tex_escape(node.deprel)))
                 if self.enhanced:
                     for dep in node.deps:
                         if dep['parent'].is_root():
                             print(r'\deproot[edge below]{%d}{root}' % node.ord)
                         else:
-                            print(r'\depedge[edge below]{%d}{%d}{%s}' % (dep['parent'].ord, node.ord, dep['deprel']))
+                            print(r'\depedge[edge below]{%d}{%d}{%s}' %
+                                  (dep['parent'].ord, node.ord, self._tex_escape(dep['deprel'])))
         if self.comment_attribute and tree.comment:
             start_pos = tree.comment.find(self.comment_attribute + ' = ')
             if start_pos != -1:
-- 
2.43.0


From edf596a5a5357cf4b8f5bc2b8375c4f1c5602ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:55 +0000
Subject: [PATCH 40/99] fix: write.Tikz closes the argument of deptrans

---
 udapi/block/write/tikz.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/tikz.py b/udapi/block/write/tikz.py
index 3131648..0445bf9 100644
--- a/udapi/block/write/tikz.py
+++ b/udapi/block/write/tikz.py
@@ -162,7 +162,7 @@ class Tikz(BaseWriter):
             if start_pos != -1:
                 start_pos += len(self.comment_attribute) + 3
                 end_pos = tree.comment.find('\n', start_pos)
-                print(r'\deptrans{' + tree.comment[start_pos:end_pos])
+                print(r'\deptrans{' + self._tex_escape(tree.comment[start_pos:end_pos]) + '}')
 
         print(r'\end{dependency}')
         print('')  # empty line marks a new paragraph in LaTeX, but multi=dependency causes newpage
-- 
2.43.0


From 36e7b2a5131839c62ea39c043aae1a0c10f9af56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:59 +0000
Subject: [PATCH 41/99] fix: selecting bridging links by relation failed and
 replaced the links of the mention

---
 udapi/core/coref.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 342d4d3..c034ccf 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -102,6 +102,7 @@ import functools
 import collections
 import collections.abc
 import copy
+import copy
 import logging
 import bisect
 
@@ -521,7 +522,10 @@ class BridgingLinks(collections.abc.MutableSequence):
         """
         if relations_re is None:
             return self
-        return BridgingLinks(self.src_mention, [l for l in self._data if re.match(relations_re, l.relation)])
+        # The mention keeps all its links, so don't create the subset with __init__.
+        subset = copy.copy(self)
+        subset._data = [l for l in self._data if re.match(relations_re, l.relation)]
+        return subset
 
     @property
     def targets(self):
-- 
2.43.0


From 33878ad77147bb5ce9baa24dff541f01677b7d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:29 +0000
Subject: [PATCH 42/99] fix: reject words whose ID in CoNLL-U is not their
 position in the sentence

---
 udapi/block/read/conllu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 0881d43..6b5ca04 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -159,6 +159,9 @@ class Conllu(BaseReader):
                             xpos=fields[4], feats=fields[5], deprel=fields[7], misc=fields[9])
                 root._descendants.append(node)
                 node._ord = int(fields[0])
+                if node._ord != len(root._descendants):
+                    raise ValueError(f"Node {node} ord mismatch: {fields[0]}, but expecting "
+                                     f"{len(root._descendants)} at:\n{line}")
                 if fields[8] != '_':
                     node.raw_deps = fields[8]
                 try:
-- 
2.43.0


From accecab79a5adc6f065fe80f5db3f470e45ca005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:34 +0000
Subject: [PATCH 43/99] fix: a deleted cross-sentence mention is not added to
 the words of the next sentence

---
 udapi/core/coref.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index c034ccf..7b207df 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -634,6 +634,7 @@ def load_coref_from_misc(doc, strict=True):
                         entity._mentions.remove(mention)
                         if not entity._mentions:
                             del entities[entity.eid]
+                        continue
                 for w in node.root.descendants_and_empty:
                     if last_word.precedes(w):
                         mention._words.append(w)
-- 
2.43.0


From 81db47b2b549c98b48fbb6bfca6f748670796b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:34 +0000
Subject: [PATCH 44/99] fix: read.Conllu rejects negative heads and multiword
 token ranges out of the sentence

---
 udapi/block/read/conllu.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 6b5ca04..0efe4c6 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -193,10 +193,9 @@ class Conllu(BaseReader):
 
         # Set dependency parents (now, all nodes of the tree are created).
         for node_ord, node in enumerate(nodes[1:], 1):
-            try:
-                parent = nodes[parents[node_ord]]
-            except IndexError:
+            if not 0 <= parents[node_ord] < len(nodes):
                 raise ValueError("Node %s HEAD is out of range (%d)" % (node, parents[node_ord]))
+            parent = nodes[parents[node_ord]]
             if node is parent:
                 if self.fix_cycles:
                     logging.warning("Ignoring a cycle (attaching to the root instead):\n%s", node)
@@ -224,7 +223,10 @@ class Conllu(BaseReader):
             except ValueError:
                 logging.warning(f"Wrong MWT range in\n{fields[0]}\n\n{lines}")
                 raise
-            words = nodes[int(range_start):int(range_end) + 1]
+            first, last = int(range_start), int(range_end)
+            if not 1 <= first <= last < len(nodes):
+                raise ValueError(f"MWT range {fields[0]} is out of range")
+            words = nodes[first:last + 1]
             root.create_multiword_token(words, form=fields[1], misc=fields[-1])
 
         return root
-- 
2.43.0


From 28a03a572a109ee127107280bdcf82bc3ca1d3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:34 +0000
Subject: [PATCH 45/99] fix: read.Conll rejects negative heads and multiword
 token ranges out of the sentence

---
 udapi/block/read/conll.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/udapi/block/read/conll.py b/udapi/block/read/conll.py
index d0aef1e..c2e98c0 100644
--- a/udapi/block/read/conll.py
+++ b/udapi/block/read/conll.py
@@ -129,10 +129,9 @@ class Conll(udapi.block.read.conllu.Conllu):
 
         # Set dependency parents (now, all nodes of the tree are created).
         for node_ord, node in enumerate(nodes[1:], 1):
-            try:
-                parent = nodes[parents[node_ord]]
-            except IndexError:
+            if not 0 <= parents[node_ord] < len(nodes):
                 raise ValueError("Node %s HEAD is out of range (%d)" % (node, parents[node_ord]))
+            parent = nodes[parents[node_ord]]
             if node is parent:
                 if self.fix_cycles:
                     logging.warning("Ignoring a cycle (attaching to the root instead):\n%s", node)
@@ -156,7 +155,10 @@ class Conll(udapi.block.read.conllu.Conllu):
         # Create multi-word tokens.
         for fields in mwts:
             range_start, range_end = fields[0].split('-')
-            words = nodes[int(range_start):int(range_end) + 1]
+            first, last = int(range_start), int(range_end)
+            if not 1 <= first <= last < len(nodes):
+                raise ValueError(f"MWT range {fields[0]} is out of range")
+            words = nodes[first:last + 1]
             root.create_multiword_token(words, form=fields[1], misc=fields[-1])
 
         return root
-- 
2.43.0


From 44e89605267403ae787a00ac58a8fb5e787cc134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:34 +0000
Subject: [PATCH 46/99] fix: read.Vislcg rejects negative heads

---
 udapi/block/read/vislcg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index 4c5a87a..96f4bd2 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -53,10 +53,9 @@ class Vislcg(BaseReader):
         if len(nodes) == 1:
             return None
         for node_ord, node in enumerate(nodes[1:], 1):
-            try:
-                node.parent = nodes[parents[node_ord]]
-            except IndexError:
+            if not 0 <= parents[node_ord] < len(nodes):
                 raise ValueError("Node %s HEAD is out of range (%d)" % (node, parents[node_ord]))
+            node.parent = nodes[parents[node_ord]]
 
         return root
 
-- 
2.43.0


From bbf419dadfcf6bd0c71e8d5edad7aea495af0329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:34 +0000
Subject: [PATCH 47/99] fix: enhanced dependencies on negative or too high ords
 are rejected

---
 udapi/core/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index fa64b45..70b78ae 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -296,6 +296,8 @@ class Node(object):
                     except StopIteration:
                         raise ValueError(f'Empty node with ord={head} not found')
                 else:
+                    if not 0 <= int(head) < len(nodes):
+                        raise ValueError(f'Node with ord={head} not found')
                     parent = nodes[int(head)]
                 deps.append({'parent': parent, 'deprel': deprel})
             self._deps = deps
-- 
2.43.0


From 7f3f19162d6dfeb0fceb3ad511f7db860835164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:18 +0000
Subject: [PATCH 48/99] fix: loading a discontinuous mention without a head
 index

---
 udapi/core/coref.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index 7b207df..ec9fd00 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -712,11 +712,12 @@ def load_coref_from_misc(doc, strict=True):
                         m = discontinuous_mentions[eid].pop()
                         if m is not mention:
                             _error(f"{node}: closing mention {mention.entity.eid} ({mention.words}), but it has an unfinished nested mention ({m.words})", 1)
-                        try:
-                            mention.head = mention._words[head_idx - 1]
-                        except IndexError as err:
-                            _error(f"Invalid head_idx={head_idx} for {mention.entity.eid} "
-                                    f"closed at {node} with words={mention._words}", 1)
+                        if head_idx:
+                            try:
+                                mention.head = mention._words[head_idx - 1]
+                            except IndexError as err:
+                                _error(f"Invalid head_idx={head_idx} for {mention.entity.eid} "
+                                        f"closed at {node} with words={mention._words}", 1)
                 else:
                     mention = CorefMention(words=[node], entity=entity, add_word_backlinks=False)
                     if other:
-- 
2.43.0


From 06d5921ca487426b90da964d2aab45359ff84cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:44 +0000
Subject: [PATCH 49/99] fix: corefud.FixInterleaved does not work with a
 mention it has deleted

---
 udapi/block/corefud/fixinterleaved.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/corefud/fixinterleaved.py b/udapi/block/corefud/fixinterleaved.py
index b4a42a4..a3ba158 100644
--- a/udapi/block/corefud/fixinterleaved.py
+++ b/udapi/block/corefud/fixinterleaved.py
@@ -80,5 +80,5 @@ class FixInterleaved(Block):
                     mA.entity.mentions.remove(mA)
                 except ValueError:
                     pass
-                break
                 deleted.add(mA)
+                break
-- 
2.43.0


From ae80fd042a9ae98c53193c3019867cc4f756e483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:53 +0000
Subject: [PATCH 50/99] fix: read.Conllu does not lose sentences after extra
 empty lines or without a final empty line

---
 udapi/block/read/conllu.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 0efe4c6..01f2833 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -98,14 +98,18 @@ class Conllu(BaseReader):
             if line == '':
                 tree = self.read_tree_from_lines(lines)
                 lines = []
+                if tree is None:
+                    continue
                 if tree.newdoc:
                     if loaded_docs == self.max_docs:
                         return trees
                     loaded_docs += 1
-                if tree:
-                    trees.append(tree)
+                trees.append(tree)
             else:
                 lines.append(line)
+        tree = self.read_tree_from_lines(lines)
+        if tree is not None:
+            trees.append(tree)
         return trees
 
     def read_tree(self):
@@ -114,9 +118,14 @@ class Conllu(BaseReader):
         lines = []
         for line in self.filehandle:
             line = line.rstrip()
-            if line == '':
-                break
-            lines.append(line)
+            if line != '':
+                lines.append(line)
+                continue
+            tree = self.read_tree_from_lines(lines)
+            # More than one empty line (or comments without any words) is not the end of file.
+            if tree is not None:
+                return tree
+            lines = []
         return self.read_tree_from_lines(lines)
 
     # pylint: disable=too-many-locals,too-many-branches,too-many-statements
-- 
2.43.0


From ff35b114532bf67390ed2e7e7717f631a61527b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:53 +0000
Subject: [PATCH 51/99] fix: read.Vislcg does not lose sentences after extra
 empty lines

---
 udapi/block/read/vislcg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index 96f4bd2..753c298 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -19,6 +19,8 @@ class Vislcg(BaseReader):
         for line in self.filehandle:
             line = line.rstrip()
             if line == '':
+                if len(parents) == 1:
+                    continue
                 break
             if line[0] == '#':
                 root.comment += line[1:] + "\n"
-- 
2.43.0


From decde793c08849b98938af53641fcb62cf69b96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:53 +0000
Subject: [PATCH 52/99] fix: a sentence buffered for the next document keeps
 its bundle and its file

---
 udapi/core/basereader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index c3bcf91..6aa08c1 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -195,7 +195,8 @@ class BaseReader(Block):
                 else:
                     bundle = document.create_bundle()
                     if root._sent_id is not None:
-                        bundle.bundle_id = root._sent_id.split('/', 1)[0]
+                        last_bundle_id = root._sent_id.split('/', 1)[0]
+                        bundle.bundle_id = last_bundle_id
                 bundle.add_tree(root)
                 if root.newdoc:
                     self._docs_loaded += 1
@@ -216,7 +217,7 @@ class BaseReader(Block):
             while True:
                 root = self.filtered_read_tree()
                 if root is None:
-                    if (trees_loaded == 0 or self.merge) and self.files.has_next_file():
+                    if (not bundle or self.merge) and self.files.has_next_file():
                         filehandle = self.next_filehandle()
                         logging.info(f"Reading {self.files.filename}")
                         continue
-- 
2.43.0


From 995941cb469a6b5ff2186c65ea17a39f176d68e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:47 +0000
Subject: [PATCH 53/99] fix: read.Ccv can be read tree by tree

---
 udapi/block/read/ccv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/udapi/block/read/ccv.py b/udapi/block/read/ccv.py
index eb44936..71e1f9d 100644
--- a/udapi/block/read/ccv.py
+++ b/udapi/block/read/ccv.py
@@ -41,7 +41,10 @@ class Ccv(BaseReader):
     def read_trees(self):
         if self.filehandle is None:
             return None
-        poems = json.load(self.filehandle)
+        content = self.filehandle.read()
+        if not content:
+            return None
+        poems = json.loads(content)
         all_trees = []
         for poem in poems:
             poem_trees = []
-- 
2.43.0


From 24804edf993f3bc1f294d0c421d9478ea0dd0fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 54/99] fix: read.AddText does not index behind the end of the
 text

---
 udapi/block/read/addtext.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/udapi/block/read/addtext.py b/udapi/block/read/addtext.py
index 040174b..d001474 100644
--- a/udapi/block/read/addtext.py
+++ b/udapi/block/read/addtext.py
@@ -33,7 +33,7 @@ class AddText(BaseReader):
             return
         text = ''.join(self.filehandle.readlines())
         i, end, was_newpar = 0, len(text), True
-        while i <= end and text[i].isspace():
+        while i < end and text[i].isspace():
             i += 1
 
         for bundle in document.bundles:
@@ -44,10 +44,10 @@ class AddText(BaseReader):
             for node in root.token_descendants:
                 if text[i:i+len(node.form)] == node.form:
                     i += len(node.form)
-                    if i > end or text[i].isspace():
+                    if i >= end or text[i].isspace():
                         del node.misc['SpaceAfter']
                         was_newpar = i+1 < end and text[i+1] == '\n' and text[i] == '\n'
-                        while i <= end and text[i].isspace():
+                        while i < end and text[i].isspace():
                             i += 1
                     else:
                         node.misc['SpaceAfter'] = 'No'
-- 
2.43.0


From c03573e3ea930153001f9a7150ab7f1c518639c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:52 +0000
Subject: [PATCH 55/99] fix: read.Conllu reads files without a final empty line
 or starting with an empty line

---
 udapi/block/read/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 01f2833..9748291 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -88,7 +88,7 @@ class Conllu(BaseReader):
             # as s.split('\n\n') and this time is negligble
             # relative to the main CoNLL-U parsing in read_tree_from_lines().
             return [self.read_tree_from_lines(s.split('\n')) for s in
-                    re.split(r'\n\n+', self.filehandle.read()) if s]
+                    re.split(r'\n\n+', self.filehandle.read().strip('\n')) if s]
         # udapi.core.basereader takes care about the max_docs parameter.
         # However, we can make the loading much faster by not reading
         # the whole file if the user wants just first N documents.
-- 
2.43.0


From d02e465608e3005a65cc934336c18cf90faab0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:10 +0000
Subject: [PATCH 56/99] fix: numbers of empty nodes stay exact and distinct
 when words or empty nodes are moved or removed

---
 udapi/core/node.py | 59 +++++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 70b78ae..315a64f 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -462,18 +462,13 @@ class Node(object):
         new_node.deps = [{'parent': self, 'deprel': deprel}]
         # self.enh_children.append(new_node) TODO
         # new_node.enh_parents.append(self) TODO
-        base_ord = self._ord if after else self._ord - 1
-        new_ord = base_ord + 0.1
+        base_ord = self._ord if after else int(self._ord) - 1
+        new_ord = _next_empty_ord(base_ord)
         for empty in self._root.empty_nodes:
             if empty._ord > new_ord:
                 break
             if empty._ord == new_ord:
-                if isinstance(new_ord, OrdTuple):
-                    new_ord.increase()
-                elif new_ord == base_ord + 0.9:
-                    new_ord = OrdTuple(f"{base_ord}.10")
-                else:
-                    new_ord = round(new_ord+0.1, 1)
+                new_ord = _next_empty_ord(new_ord)
         new_node._ord = new_ord
         if not self._root.empty_nodes or new_node > self._root.empty_nodes[-1]:
             self._root.empty_nodes.append(new_node)
@@ -551,9 +546,9 @@ class Node(object):
                 last_ord = 0
                 for empty in self._root.empty_nodes:
                     if empty._ord > self._ord:
-                        new_ord = round(empty._ord - 1, 1)
+                        new_ord = _shift_empty_ord(empty._ord, -1)
                         if new_ord <= last_ord:
-                            new_ord = round(last_ord + 0.1, 1)
+                            new_ord = _next_empty_ord(last_ord)
                         empty.ord = new_ord
                     last_ord = empty._ord
         else:
@@ -581,9 +576,9 @@ class Node(object):
                 last_ord = 0
                 for empty in self._root.empty_nodes:
                     prev_nonempty = empty_follows[empty]
-                    new_ord = round(prev_nonempty._ord + (empty._ord % 1), 1)
-                    while new_ord <= last_ord:
-                        new_ord = round(new_ord + 0.1, 1)
+                    new_ord = _shift_empty_ord(empty._ord, prev_nonempty._ord - int(empty._ord))
+                    if new_ord <= last_ord:
+                        new_ord = _next_empty_ord(last_ord)
                     last_ord, empty.ord = new_ord, new_ord
 
     def _shift_before_ord(self, reference_ord, without_children=False):
@@ -602,7 +597,7 @@ class Node(object):
                 self._ord = reference_ord - 1
                 for en in empty_nodes:
                     if en._ord > my_ord and en._ord < reference_ord:
-                        en._ord -= 1
+                        en._ord = _shift_empty_ord(en._ord, -1)
             elif reference_ord < my_ord:
                 for i_ord in range(my_ord, reference_ord, -1):
                     all_nodes[i_ord - 1] = all_nodes[i_ord - 2]
@@ -613,7 +608,7 @@ class Node(object):
                     # Empty nodes before the first overt token (ID=0.X) will be never moved this way.
                     # We cannot know whether the caller wanted to place the shifted node before or after them.
                     if en._ord < my_ord and en._ord > reference_ord:
-                        en._ord += 1
+                        en._ord = _shift_empty_ord(en._ord, 1)
             self._parent._children.sort()
             return
 
@@ -1057,13 +1052,13 @@ class EmptyNode(Node):
 
     @ord.setter
     def ord(self, new_ord):
-        """Empty node's ord setter accepts float and str."""
+        """Empty node's ord setter accepts float, str and OrdTuple."""
         if isinstance(new_ord, str):
-            self._ord = float(new_ord)
-        elif isinstance(new_ord, float):
+            self._ord = OrdTuple(new_ord) if re.match(r'\d+\.[1-9]\d+$', new_ord) else float(new_ord)
+        elif isinstance(new_ord, (float, OrdTuple)):
             self._ord = new_ord
         else:
-            raise ValueError('Only str and float are allowed for EmptyNode ord setter,'
+            raise ValueError('Only str, float and OrdTuple are allowed for EmptyNode ord setter,'
                              f' but {type(new_ord)} was given.')
 
     def shift(self, reference_node, after=0, move_subtree=0, reference_subtree=0):
@@ -1072,13 +1067,15 @@ class EmptyNode(Node):
 
     def remove(self):
         """Delete this empty node."""
-        to_reorder = [e for e in self._root.empty_nodes if e._ord > self._ord and e._ord < self.ord+1]
-        for empty in to_reorder:
-            empty._ord = round(empty._ord - 0.1, 1)
         try:
             self._root.empty_nodes.remove(self)
         except ValueError:
             return # self may be an already deleted node e.g. if n.remove() called twice
+        # Each of the empty nodes following in the same gap between words takes the ord of the previous one.
+        last_ord = self._ord
+        for empty in sorted(self._root.empty_nodes):
+            if empty._ord > self._ord and int(empty._ord) == int(self._ord):
+                empty._ord, last_ord = last_ord, empty._ord
         for n in self._root.empty_nodes + self._root._descendants:
             if n._deps:
                 n.deps = [dep for dep in n._deps if dep['parent'] is not self]
@@ -1127,11 +1124,29 @@ class OrdTuple:
         else:
             raise ValueError(f"OrdTuple cannot be compared with {type(other)}")
 
+    def __int__(self):
+        return self._key[0]
+
     def increase(self):
         """Increment the decimal part of this ord."""
         self._key = (self._key[0], self._key[1]+1)
 
 
+def _shift_empty_ord(ord, words):
+    """Return the ord of an empty node with a given ord after moving it by a given number of words."""
+    if isinstance(ord, OrdTuple):
+        return OrdTuple(f"{ord._key[0] + words}.{ord._key[1]}")
+    return round(ord + words, 1)
+
+
+def _next_empty_ord(ord):
+    """Return the ord following a given one, e.g. 1 -> 1.1 -> 1.2 -> ... -> 1.9 -> 1.10 -> 1.11."""
+    major, minor = ord._key if isinstance(ord, OrdTuple) else (int(ord), round(10 * (ord % 1)))
+    if minor < 9:
+        return float(f"{major}.{minor + 1}")
+    return OrdTuple(f"{major}.{minor + 1}")
+
+
 # Implementation note on ListOfNodes
 # We could inherit from collections.abc.Sequence, store the list in self._data
 # and implement __getitem__ and __len__ by delegating it to self._data.
-- 
2.43.0


From 7aa3b09ad8d0d8b5545d6d7b1b90e348d1c57f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:36 +0000
Subject: [PATCH 57/99] fix: empty nodes stay at their place when words or
 subtrees are moved

---
 udapi/core/node.py | 39 +++++++++++++--------------------------
 udapi/core/root.py | 21 ++++++++++++++++++++-
 2 files changed, 33 insertions(+), 27 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 315a64f..dbf540f 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -555,14 +555,7 @@ class Node(object):
             # Remember the position of empty nodes, so we can reorder them as well.
             empty_follows = None
             if self._root.empty_nodes:
-                will_be_removed = self if children and children.startswith('rehang') else self.descendants(add_self=1)
-                prev_nonempty = self._root
-                empty_follows = {}
-                for node in self._root.descendants_and_empty:
-                    if node.is_empty():
-                        empty_follows[node] = prev_nonempty
-                    elif node not in will_be_removed:
-                        prev_nonempty = node
+                empty_follows = self._root._empty_nodes_follow(self.descendants(add_self=1))
 
             # TODO nodes_to_remove = self.unordered_descendants()
             # and mark all nodes as deleted, remove them from MWT and coref mentions
@@ -573,18 +566,22 @@ class Node(object):
             # Make sure that e.g. after deleting node with ord=2
             # ords "1 1.1 1.2 2 2.1" will become "1 1.1 1.2 1.3".
             if empty_follows:
-                last_ord = 0
-                for empty in self._root.empty_nodes:
-                    prev_nonempty = empty_follows[empty]
-                    new_ord = _shift_empty_ord(empty._ord, prev_nonempty._ord - int(empty._ord))
-                    if new_ord <= last_ord:
-                        new_ord = _next_empty_ord(last_ord)
-                    last_ord, empty.ord = new_ord, new_ord
+                self._root._reorder_empty_nodes(empty_follows)
 
     def _shift_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order."""
+        if not self._root.empty_nodes:
+            self._shift_words_before_ord(reference_ord, without_children)
+            return
+        # Empty nodes stay after the word they follow (disregarding the words being moved).
+        moving = [self] if without_children else self.descendants(add_self=True)
+        empty_follows = self._root._empty_nodes_follow(moving)
+        self._shift_words_before_ord(reference_ord, without_children)
+        self._root._reorder_empty_nodes(empty_follows)
+
+    def _shift_words_before_ord(self, reference_ord, without_children=False):
+        """Internal method for changing word order (without empty nodes)."""
         all_nodes = self._root._descendants
-        empty_nodes = self._root.empty_nodes
 
         # Moving a single node can be faster than nodes_to_move = [self]
         if without_children or not self._children:
@@ -595,25 +592,15 @@ class Node(object):
                     all_nodes[i_ord - 1]._ord = i_ord
                 all_nodes[reference_ord - 2] = self
                 self._ord = reference_ord - 1
-                for en in empty_nodes:
-                    if en._ord > my_ord and en._ord < reference_ord:
-                        en._ord = _shift_empty_ord(en._ord, -1)
             elif reference_ord < my_ord:
                 for i_ord in range(my_ord, reference_ord, -1):
                     all_nodes[i_ord - 1] = all_nodes[i_ord - 2]
                     all_nodes[i_ord - 1]._ord = i_ord
                 all_nodes[reference_ord - 1] = self
                 self._ord = reference_ord
-                for en in empty_nodes:
-                    # Empty nodes before the first overt token (ID=0.X) will be never moved this way.
-                    # We cannot know whether the caller wanted to place the shifted node before or after them.
-                    if en._ord < my_ord and en._ord > reference_ord:
-                        en._ord = _shift_empty_ord(en._ord, 1)
             self._parent._children.sort()
             return
 
-        #TODO: Updating ords of empty nodes is implemented only for the simple case above,
-        # but it has to be implemented also for the complex case below!
         nodes_to_move = self.descendants(add_self=True)
         first_ord, last_ord = nodes_to_move[0]._ord, nodes_to_move[-1]._ord
 
diff --git a/udapi/core/root.py b/udapi/core/root.py
index 9cee1b5..acc8e99 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -1,7 +1,7 @@
 """Root class represents the technical root node in each tree."""
 import logging
 
-from udapi.core.node import Node, EmptyNode, ListOfNodes
+from udapi.core.node import Node, EmptyNode, ListOfNodes, _next_empty_ord, _shift_empty_ord
 from udapi.core.mwt import MWT
 
 # 7 instance attributes is too low (CoNLL-U has 10 columns)
@@ -263,6 +263,25 @@ class Root(Node):
     def descendants_and_empty(self):
         return sorted(self._descendants + self.empty_nodes)
 
+    def _empty_nodes_follow(self, moving):
+        """Return a dict from empty nodes to the words (or root) they follow, disregarding words in `moving`."""
+        prev_nonempty, follows = self, {}
+        for node in self.descendants_and_empty:
+            if node.is_empty():
+                follows[node] = prev_nonempty
+            elif node not in moving:
+                prev_nonempty = node
+        return follows
+
+    def _reorder_empty_nodes(self, follows):
+        """Update ords of empty nodes, so that they follow the given words again (and keep their order)."""
+        last_ord = 0
+        for empty in sorted(self.empty_nodes):
+            new_ord = _shift_empty_ord(empty._ord, follows[empty]._ord - int(empty._ord))
+            if new_ord <= last_ord:
+                new_ord = _next_empty_ord(last_ord)
+            last_ord, empty._ord = new_ord, new_ord
+
     def steal_nodes(self, nodes):
         """Move nodes from another tree to this tree (append)."""
         old_root = nodes[0].root
-- 
2.43.0


From c346dcd100c2135d810679130dbc5b2ad2da8f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:18 +0000
Subject: [PATCH 58/99] fix: enhanced dependencies keep referring to the same
 nodes when words are moved or removed

---
 udapi/core/node.py |  8 +++++---
 udapi/core/root.py | 24 ++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index dbf540f..6ef7c43 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -517,6 +517,7 @@ class Node(object):
             `warn` means to issue a warning if any children are present and delete them.
             `rehang_warn` means to rehang and warn:-).
         """
+        self._root._deserialize_deps()
         self._parent._children.remove(self)
 
         # If there are any children, do the action specified in the "children" parameter.
@@ -567,9 +568,11 @@ class Node(object):
             # ords "1 1.1 1.2 2 2.1" will become "1 1.1 1.2 1.3".
             if empty_follows:
                 self._root._reorder_empty_nodes(empty_follows)
+        self._root._remove_foreign_deps()
 
     def _shift_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order."""
+        self._root._deserialize_deps()
         if not self._root.empty_nodes:
             self._shift_words_before_ord(reference_ord, without_children)
             return
@@ -1054,6 +1057,7 @@ class EmptyNode(Node):
 
     def remove(self):
         """Delete this empty node."""
+        self._root._deserialize_deps()
         try:
             self._root.empty_nodes.remove(self)
         except ValueError:
@@ -1063,9 +1067,7 @@ class EmptyNode(Node):
         for empty in sorted(self._root.empty_nodes):
             if empty._ord > self._ord and int(empty._ord) == int(self._ord):
                 empty._ord, last_ord = last_ord, empty._ord
-        for n in self._root.empty_nodes + self._root._descendants:
-            if n._deps:
-                n.deps = [dep for dep in n._deps if dep['parent'] is not self]
+        self._root._remove_foreign_deps()
 
 @functools.total_ordering
 class OrdTuple:
diff --git a/udapi/core/root.py b/udapi/core/root.py
index acc8e99..13c600e 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -263,6 +263,22 @@ class Root(Node):
     def descendants_and_empty(self):
         return sorted(self._descendants + self.empty_nodes)
 
+    def _deserialize_deps(self):
+        """Make sure the enhanced dependencies refer to nodes and not to their ord, which is going to change."""
+        for node in self._descendants + self.empty_nodes:
+            if node._deps is None and node._raw_deps not in ('_', None):
+                try:
+                    node.deps  # pylint: disable=pointless-statement
+                except ValueError:
+                    logging.debug('Node %s has invalid enhanced dependencies %s', node, node._raw_deps)
+
+    def _remove_foreign_deps(self):
+        """Remove enhanced dependencies on nodes which are not in this tree (anymore)."""
+        alive = set(self._descendants + self.empty_nodes + [self])
+        for node in self._descendants + self.empty_nodes:
+            if node._deps and any(dep['parent'] not in alive for dep in node._deps):
+                node.deps = [dep for dep in node._deps if dep['parent'] in alive]
+
     def _empty_nodes_follow(self, moving):
         """Return a dict from empty nodes to the words (or root) they follow, disregarding words in `moving`."""
         prev_nonempty, follows = self, {}
@@ -290,6 +306,8 @@ class Root(Node):
                 raise ValueError("steal_nodes(nodes) was called with nodes from several trees")
         nodes = sorted(nodes)
         whole_tree = nodes == old_root.descendants
+        self._deserialize_deps()
+        old_root._deserialize_deps()
         new_ord = len(self._descendants)
         # pylint: disable=protected-access
         for node in nodes:
@@ -322,6 +340,12 @@ class Root(Node):
                     mwt.remove()
                     self.create_multiword_token(words=words, form=mwt.form, misc=mwt.misc)
         self._descendants += nodes
+        for node in nodes:
+            for dep in node._deps or []:
+                if dep['parent'] is old_root:
+                    dep['parent'] = self
+        self._remove_foreign_deps()
+        old_root._remove_foreign_deps()
         # pylint: enable=protected-access
 
     def flatten(self, deprel='root'):
-- 
2.43.0


From f6b2bed717fdd3c617ad80203bd6a9b166365604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:32 +0000
Subject: [PATCH 59/99] fix: empty nodes are moved together with the words of a
 whole tree

---
 udapi/core/root.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 13c600e..bd450ce 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -308,6 +308,7 @@ class Root(Node):
         whole_tree = nodes == old_root.descendants
         self._deserialize_deps()
         old_root._deserialize_deps()
+        empty_follows = old_root._empty_nodes_follow(nodes)
         new_ord = len(self._descendants)
         # pylint: disable=protected-access
         for node in nodes:
@@ -324,6 +325,13 @@ class Root(Node):
                 node._parent = self
                 self._children.append(node)
         if whole_tree:
+            last_ord = self.empty_nodes[-1]._ord if self.empty_nodes else 0
+            for empty in sorted(old_root.empty_nodes):
+                empty_ord = _shift_empty_ord(empty._ord, len(self._descendants))
+                last_ord = empty_ord if empty_ord > last_ord else _next_empty_ord(last_ord)
+                empty._ord, empty._root = last_ord, self
+                self.empty_nodes.append(empty)
+            old_root.empty_nodes = []
             old_root._descendants = []
             for mwt in old_root.multiword_tokens:
                 mwt.root = self
@@ -333,6 +341,7 @@ class Root(Node):
             old_root._descendants = [n for n in old_root._descendants if n not in nodes]
             for (old_ord, node) in enumerate(old_root._descendants, 1):
                 node.ord = old_ord
+            old_root._reorder_empty_nodes(empty_follows)
             for node in nodes:
                 mwt = node.multiword_token
                 if mwt and mwt.root is old_root:
@@ -340,7 +349,7 @@ class Root(Node):
                     mwt.remove()
                     self.create_multiword_token(words=words, form=mwt.form, misc=mwt.misc)
         self._descendants += nodes
-        for node in nodes:
+        for node in self._descendants + self.empty_nodes:
             for dep in node._deps or []:
                 if dep['parent'] is old_root:
                     dep['parent'] = self
-- 
2.43.0


From f77ae2a0932c21256dcd397287c0bd875de59392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:31 +0000
Subject: [PATCH 60/99] fix: a word shifted to the place where it is does not
 move empty nodes

---
 udapi/core/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 6ef7c43..daaa17c 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -579,8 +579,10 @@ class Node(object):
         # Empty nodes stay after the word they follow (disregarding the words being moved).
         moving = [self] if without_children else self.descendants(add_self=True)
         empty_follows = self._root._empty_nodes_follow(moving)
+        old_words = self._root._descendants[:]
         self._shift_words_before_ord(reference_ord, without_children)
-        self._root._reorder_empty_nodes(empty_follows)
+        if self._root._descendants != old_words:
+            self._root._reorder_empty_nodes(empty_follows)
 
     def _shift_words_before_ord(self, reference_ord, without_children=False):
         """Internal method for changing word order (without empty nodes)."""
-- 
2.43.0


From c8890c7832f8ef69e763bece3ebff2dae920d524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:39 +0000
Subject: [PATCH 61/99] fix: clearing a missing attribute keeps the string view
 of the others as it was

---
 udapi/core/dualdict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/dualdict.py b/udapi/core/dualdict.py
index d2dd5a4..7822d8a 100644
--- a/udapi/core/dualdict.py
+++ b/udapi/core/dualdict.py
@@ -65,9 +65,9 @@ class DualDict(collections.abc.MutableMapping):
 
     def __setitem__(self, key, value):
         self._deserialize_if_empty()
-        self._string = None
         if value is not None and value != '':
             self._dict[key] = value
+            self._string = None
         else:
             self.__delitem__(key)
 
-- 
2.43.0


From befd9048a5ad0df148ea92bf8685cbe84f91f94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:39 +0000
Subject: [PATCH 62/99] fix: feats of multiword tokens are kept

---
 udapi/block/read/conllu.py  |  2 +-
 udapi/block/write/conllu.py |  4 +++-
 udapi/core/mwt.py           | 22 ++++++++++++++++++++--
 udapi/core/root.py          |  5 +++--
 4 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 9748291..95c172d 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -236,6 +236,6 @@ class Conllu(BaseReader):
             if not 1 <= first <= last < len(nodes):
                 raise ValueError(f"MWT range {fields[0]} is out of range")
             words = nodes[first:last + 1]
-            root.create_multiword_token(words, form=fields[1], misc=fields[-1])
+            root.create_multiword_token(words, form=fields[1], feats=fields[5], misc=fields[9])
 
         return root
diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 2573b5a..ad64747 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -117,7 +117,9 @@ class Conllu(BaseWriter):
             if mwt and node._ord > last_mwt_id:
                 print('\t'.join((mwt.ord_range,
                                  '_' if mwt.form is None else mwt.form,
-                                 '_\t_\t_\t_\t_\t_\t_',
+                                 '_\t_\t_',
+                                 '_' if mwt._feats is None else str(mwt.feats),
+                                 '_\t_\t_',
                                  '_' if mwt._misc is None else str(mwt.misc))))
                 last_mwt_id = mwt.words[-1]._ord
 
diff --git a/udapi/core/mwt.py b/udapi/core/mwt.py
index 95dc093..c0aabbf 100644
--- a/udapi/core/mwt.py
+++ b/udapi/core/mwt.py
@@ -4,16 +4,34 @@ from udapi.core.dualdict import DualDict
 
 class MWT(object):
     """Class for representing multi-word tokens in UD trees."""
-    __slots__ = ['words', 'form', '_misc', 'root']
+    __slots__ = ['words', 'form', '_feats', '_misc', 'root']
 
-    def __init__(self, words=None, form=None, misc=None, root=None):
+    def __init__(self, words=None, form=None, misc=None, root=None, feats=None):
         self.words = words if words is not None else []
         self.form = form
+        self._feats = DualDict(feats) if feats and feats != '_' else None
         self._misc = DualDict(misc) if misc and misc != '_' else None
         self.root = root
         for word in self.words:
             word._mwt = self  # pylint: disable=W0212
 
+    @property
+    def feats(self):
+        """Property for features (only Typo=Yes is allowed in UD) stored as a `DualDict` object.
+
+        See `udapi.core.node.Node` for details.
+        """
+        if self._feats is None:
+            self._feats = DualDict()
+        return self._feats
+
+    @feats.setter
+    def feats(self, value):
+        if self._feats is None:
+            self._feats = DualDict(value)
+        else:
+            self._feats.set_mapping(value)
+
     @property
     def misc(self):
         """Property for MISC attributes stored as a `DualDict` object.
diff --git a/udapi/core/root.py b/udapi/core/root.py
index bd450ce..8357a91 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -167,7 +167,7 @@ class Root(Node):
         return new_node
 
     # TODO document whether misc is a string or dict or it can be both
-    def create_multiword_token(self, words=None, form=None, misc=None):
+    def create_multiword_token(self, words=None, form=None, misc=None, feats=None):
         """Create and return a new multi-word token (MWT) in this tree.
 
         The new MWT can be optionally initialized using the following args.
@@ -175,6 +175,7 @@ class Root(Node):
         words: a list of nodes which are part of the new MWT
         form: string representing the surface form of the new MWT
         misc: misc attribute of the new MWT
+        feats: feats attribute of the new MWT
         """
         # Nested or overlapping MWTs are not allowed in CoNLL-U,
         # so first remove all previous MWTs containing any of words.
@@ -182,7 +183,7 @@ class Root(Node):
             if w.multiword_token:
                 w.multiword_token.remove()
         # Now, create the new MWT.
-        mwt = MWT(words, form, misc, root=self)
+        mwt = MWT(words, form, misc, root=self, feats=feats)
         self._mwts.append(mwt)
         if words[-1].misc["SpaceAfter"] == "No":
             mwt.misc["SpaceAfter"] = "No"
-- 
2.43.0


From e237b5ad164e94ae5804ffeca30ffbc554befa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:05 +0000
Subject: [PATCH 63/99] fix: write.Conllu print_text=0 does not print
 placeholders

---
 udapi/block/write/conllu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index ad64747..3402fe3 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -33,7 +33,9 @@ class Conllu(BaseWriter):
                 comment_lines[i] = ' sent_id = ' + tree.sent_id if self.print_sent_id else None
             elif c_line == '$TEXT':
                 i_text = i
-                if self.print_text:
+                if not self.print_text:
+                    comment_lines[i] = None
+                else:
                     if tree.text is None:
                         comment_lines[i] = ' text = ' + tree.compute_text()
                     else:
-- 
2.43.0


From e5a3fe49309676e0a14b1b9f74bfa7930345d326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:36 +0000
Subject: [PATCH 64/99] fix: write.Conllu splits comments only at line ends

---
 udapi/block/write/conllu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index 3402fe3..d123bba 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -25,7 +25,8 @@ class Conllu(BaseWriter):
 
         # If tree.comment contains placeholders $NEWDOC,...$TEXT, replace them with the actual
         # value of the attribute and make note on which line (i_*) they were present.
-        comment_lines = tree.comment.splitlines()
+        # (Only line ends separate comments: str.splitlines() would split also at e.g. U+2028 and U+0085.)
+        comment_lines = tree.comment.replace('\r', '').split('\n')
         i_newdoc, i_newpar, i_sent_id, i_text, i_global_entity = -1, -1, -1, -1, -1
         for i, c_line in enumerate(comment_lines):
             if c_line == '$SENT_ID':
-- 
2.43.0


From b9ac6751c0522484d5b687bb8f640b7a8af882cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:36 +0000
Subject: [PATCH 65/99] fix: read.Conllu does not take comments starting with
 sent_id for sent_id

---
 udapi/block/read/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 95c172d..23b9d5c 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -10,7 +10,7 @@ from udapi.core.node import Node
 # Compile a set of regular expressions that will be searched over the lines.
 # The equal sign after sent_id was added to the specification in UD v2.0.
 # This reader accepts also older-style sent_id (until UD v2.0 treebanks are released).
-RE_SENT_ID = re.compile(r'^# sent_id\s*=?\s*(\S+)')
+RE_SENT_ID = re.compile(r'^# sent_id(?:\s*=\s*|\s+)(\S+)')
 RE_TEXT = re.compile(r'^# text\s*=\s*(.*)')
 RE_NEWPARDOC = re.compile(r'^# (newpar|newdoc)(?:\s+id\s*=\s*(.+))?$')
 RE_JSON = re.compile(r'^# (doc_)?json_([^ =]+)\s*=\s*(.+)')
-- 
2.43.0


From 9085a527b09aaeb5005298664c17f501429bdd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:04 +0000
Subject: [PATCH 66/99] fix: a sentence without sent_id does not get the id of
 the previous sentence

---
 udapi/core/basereader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/core/basereader.py b/udapi/core/basereader.py
index 6aa08c1..cc17693 100644
--- a/udapi/core/basereader.py
+++ b/udapi/core/basereader.py
@@ -154,6 +154,8 @@ class BaseReader(Block):
                         root.zone = parts[1]
                     add_to_the_last_bundle = bundle_id == last_bundle_id
                     last_bundle_id = bundle_id
+                else:
+                    last_bundle_id = ''
                 if self.zone != 'keep':
                     root.zone = self.zone
 
@@ -249,6 +251,8 @@ class BaseReader(Block):
                         root.zone = parts[1]
                     add_to_the_last_bundle = bundle_id == last_bundle_id
                     last_bundle_id = bundle_id
+                else:
+                    last_bundle_id = ''
 
                 if self.zone != 'keep':
                     root.zone = self.zone
-- 
2.43.0


From 6e58675496327ed3664f10586aa1028b1ae8a08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:45 +0000
Subject: [PATCH 67/99] fix: write.Conllu print_sent_id=0 does not fail on
 sentences starting with sent_id

---
 udapi/block/write/conllu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/conllu.py b/udapi/block/write/conllu.py
index d123bba..4f8ab6a 100644
--- a/udapi/block/write/conllu.py
+++ b/udapi/block/write/conllu.py
@@ -66,7 +66,7 @@ class Conllu(BaseWriter):
         # keep them at their original position and print also all comment lines preceding them.
         # It they were missing, try to print them at the correct position.
         printed_i = -1
-        if comment_lines and comment_lines[0].startswith(' global.columns'):
+        if comment_lines[0] and comment_lines[0].startswith(' global.columns'):
             printed_i += 1
             print('#' + comment_lines[printed_i])
         if self.print_sent_id:
-- 
2.43.0


From 9b42e2a47bde372d660a15742439c5297bf24d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:45 +0000
Subject: [PATCH 68/99] fix: read.Conllu keeps no-break spaces at the ends of
 lines when reading line by line

---
 udapi/block/read/conllu.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/udapi/block/read/conllu.py b/udapi/block/read/conllu.py
index 23b9d5c..2243049 100644
--- a/udapi/block/read/conllu.py
+++ b/udapi/block/read/conllu.py
@@ -94,8 +94,8 @@ class Conllu(BaseReader):
         # the whole file if the user wants just first N documents.
         trees, lines, loaded_docs = [], [], 0
         for line in self.filehandle:
-            line = line.rstrip()
-            if line == '':
+            line = line.rstrip('\n')
+            if not line.strip():
                 tree = self.read_tree_from_lines(lines)
                 lines = []
                 if tree is None:
@@ -117,8 +117,8 @@ class Conllu(BaseReader):
             return None
         lines = []
         for line in self.filehandle:
-            line = line.rstrip()
-            if line != '':
+            line = line.rstrip('\n')
+            if line.strip():
                 lines.append(line)
                 continue
             tree = self.read_tree_from_lines(lines)
-- 
2.43.0


From 3915fb31b5b5f01bdda966e23a74961847098bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:39 +0000
Subject: [PATCH 69/99] fix: bundle numbers start from 1 also after
 Bundle.remove()

---
 udapi/core/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index a8ff7a7..5f0ff55 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -104,7 +104,7 @@ class Bundle(object):
     def remove(self):
         """Remove a bundle from the document."""
         self._document.bundles = [bundle for bundle in self._document.bundles if bundle != self]
-        for i, bundle in enumerate(self._document.bundles):
+        for i, bundle in enumerate(self._document.bundles, 1):
             bundle.number = i
 
     def address(self):
-- 
2.43.0


From 85deeb8ee85ad70e24e78816154368458c29a1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:39 +0000
Subject: [PATCH 70/99] fix: util.SplitSentence numbered the bundles after a
 split one too low

---
 udapi/block/util/splitsentence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/util/splitsentence.py b/udapi/block/util/splitsentence.py
index b6ca57d..3940765 100644
--- a/udapi/block/util/splitsentence.py
+++ b/udapi/block/util/splitsentence.py
@@ -85,7 +85,7 @@ class SplitSentence(Block):
                     self.make_zeros_roots(root)
                     root.text = root.compute_text()
                     # Update the bundle numbers of the new bundles and all bundles after them.
-                    updated_no = bundle_no + 1
+                    updated_no = bundle_no + 2
                     for b in document.bundles[(bundle_no+1):]:
                         b.number = updated_no
                         updated_no += 1
@@ -101,7 +101,7 @@ class SplitSentence(Block):
                 new_bundle_no = bundle_no + 1
                 document.bundles.pop()
                 document.bundles.insert(new_bundle_no, new_bundle)
-                updated_no = new_bundle_no
+                updated_no = new_bundle_no + 1
                 for b in document.bundles[new_bundle_no:]:
                     b.number = updated_no
                     updated_no += 1
-- 
2.43.0


From 1b942f4c0e47059a73acc7ce6604e476b348c557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:39 +0000
Subject: [PATCH 71/99] fix: Root.sent_id = 'x' on a tree with a zone left
 sent_id without the zone

---
 udapi/core/root.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 8357a91..1a8e1d9 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -58,7 +58,8 @@ class Root(Node):
             if len(parts) == 2 and parts[1] != self._zone:
                 self.zone = parts[1]
             self._bundle.bundle_id = parts[0]
-        self._sent_id = sent_id
+        else:
+            self._sent_id = sent_id
 
     def address(self):
         """Full (document-wide) id of the root.
-- 
2.43.0


From 9c12d2c1a2f62ee502e1ff82ff40bf72fd939776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:25 +0000
Subject: [PATCH 72/99] fix: a removed tree no longer belongs to its bundle
 (changing its sent_id renamed the bundle)

---
 udapi/core/root.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/udapi/core/root.py b/udapi/core/root.py
index 1a8e1d9..18f6f55 100644
--- a/udapi/core/root.py
+++ b/udapi/core/root.py
@@ -149,6 +149,7 @@ class Root(Node):
             logging.warning('%s is being removed by remove(children=%s), '
                             ' but it has (unexpected) children', self, children)
         self.bundle.trees = [root for root in self.bundle.trees if root != self]
+        self._bundle = None
 
     def shift(self, reference_node, after=0, move_subtree=0, reference_subtree=0):
         """Attempts at changing the word order of root result in Exception."""
-- 
2.43.0


From 176a79bf323a5a3b9e0cfac552ac35a7a210522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:25 +0000
Subject: [PATCH 73/99] fix: adding a tree to another bundle takes it out of
 its former bundle

---
 udapi/core/bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 5f0ff55..6241a0f 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -88,6 +88,8 @@ class Bundle(object):
         """Add an existing tree to the bundle."""
         zone = '' if root.zone is None else root.zone
         self.check_zone(zone)
+        if root.bundle is not None:
+            root.remove()
         root._zone = zone
         if self._bundle_id:
             root._sent_id = self._bundle_id
-- 
2.43.0


From f19bd422bac47b0bf48f9ade47678e38a743175c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:25 +0000
Subject: [PATCH 74/99] fix: Document.create_bundle() does not reuse the id of
 a bundle with a numeric id

---
 udapi/core/bundle.py   | 2 ++
 udapi/core/document.py | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/udapi/core/bundle.py b/udapi/core/bundle.py
index 6241a0f..ee5e610 100644
--- a/udapi/core/bundle.py
+++ b/udapi/core/bundle.py
@@ -32,6 +32,8 @@ class Bundle(object):
     @bundle_id.setter
     def bundle_id(self, bundle_id):
         self._bundle_id = bundle_id
+        if self._document is not None:
+            self._document._reserve_bundle_id(bundle_id)  # pylint: disable=protected-access
         for tree in self.trees:
             slashzone = '/' + tree.zone if tree.zone else ''
             tree._sent_id = bundle_id + slashzone  # pylint: disable=protected-access
diff --git a/udapi/core/document.py b/udapi/core/document.py
index 7eac4ed..3ca3dc8 100644
--- a/udapi/core/document.py
+++ b/udapi/core/document.py
@@ -63,6 +63,11 @@ class Document(object):
         bundle.number = len(self.bundles)
         return bundle
 
+    def _reserve_bundle_id(self, bundle_id):
+        """Make sure that `create_bundle()` will not assign the given ID to another bundle."""
+        if bundle_id is not None and bundle_id.isdecimal():
+            self._highest_bundle_id = max(self._highest_bundle_id, int(bundle_id))
+
     def load_conllu(self, filename=None, **kwargs):
         """Load a document from a conllu-formatted file."""
         ConlluReader(files=[filename], **kwargs).process_document(self)
-- 
2.43.0


From 59949b31bf9b8c9b43f3520af95a72df359769b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:25 +0000
Subject: [PATCH 75/99] fix: util.Split hands over the bundles together with
 their document and numbers

---
 udapi/block/util/split.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/udapi/block/util/split.py b/udapi/block/util/split.py
index 6eb2f65..3bc21fc 100644
--- a/udapi/block/util/split.py
+++ b/udapi/block/util/split.py
@@ -36,4 +36,8 @@ class Split(BaseReader):
         self.buffer.extend(document.bundles)
         document.bundles = self.buffer[:self.bundles_per_doc]
         self.buffer = self.buffer[self.bundles_per_doc:]
+        for number, bundle in enumerate(document.bundles, 1):
+            bundle._document = document  # pylint: disable=protected-access
+            bundle.number = number
+            document._reserve_bundle_id(bundle.bundle_id)  # pylint: disable=protected-access
         self.finished = not self.buffer
-- 
2.43.0


From 7c1c8714cbafced256cf83a58e7e18f3f59668c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:25 +0000
Subject: [PATCH 76/99] fix: udpipe.Base listed a bundle once per each of its
 trees and did not number the new bundles

---
 udapi/block/udpipe/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/udpipe/base.py b/udapi/block/udpipe/base.py
index 069fc9f..ee5d3f8 100644
--- a/udapi/block/udpipe/base.py
+++ b/udapi/block/udpipe/base.py
@@ -154,8 +154,8 @@ class Base(Block):
         old_bundles = doc.bundles
         new_bundles = []
         for bundle in old_bundles:
+            new_bundles.append(bundle)
             for tree in bundle:
-                new_bundles.append(bundle)
                 if self._should_process_tree(tree):
                     if self.delete_nodes:
                         for subroot in tree.children:
@@ -187,6 +187,8 @@ class Base(Block):
                     else:
                         raise ValueError(f"Unimplemented tokenize={tok} tag={tag} parse={par} resegment={reseg}")
         doc.bundles = new_bundles
+        for number, bundle in enumerate(doc.bundles, 1):
+            bundle.number = number
 
 '''
 Udapi::Block::UDPipe::Base - tokenize, tag and parse into UD
-- 
2.43.0


From 030dbe197d5875f4c7c8232f0cb7ae82d923dc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:25 +0000
Subject: [PATCH 77/99] fix: segment.Simple numbers the new bundles

---
 udapi/block/segment/simple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/segment/simple.py b/udapi/block/segment/simple.py
index 58be9b6..9befa87 100644
--- a/udapi/block/segment/simple.py
+++ b/udapi/block/segment/simple.py
@@ -89,3 +89,5 @@ class Simple(Block):
                             new_bundle.create_tree(tree.zone).text = sentence
                             new_bundles.append(new_bundle)
         doc.bundles = new_bundles
+        for number, bundle in enumerate(doc.bundles, 1):
+            bundle.number = number
-- 
2.43.0


From 3f5098ecb4bb1fbfaf2cffd760859b7db7af2501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:35 +0000
Subject: [PATCH 78/99] fix: segment.Merge numbers the remaining bundles

---
 udapi/block/segment/merge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/udapi/block/segment/merge.py b/udapi/block/segment/merge.py
index 9ada45f..5f14e48 100644
--- a/udapi/block/segment/merge.py
+++ b/udapi/block/segment/merge.py
@@ -43,4 +43,6 @@ class Merge(Block):
             else:
                 new_bundles.append(bundle)
                 prev_bundle = bundle
-        doc.bundles = new_bundles
\ No newline at end of file
+        doc.bundles = new_bundles
+        for number, bundle in enumerate(doc.bundles, 1):
+            bundle.number = number
-- 
2.43.0


From 28f195b2dce2b9ca342fc9a79acfc1560ca4bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:47 +0000
Subject: [PATCH 79/99] fix: Document.create_bundle() does not reuse a numeric
 id given as an integer

---
 udapi/core/document.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/document.py b/udapi/core/document.py
index 3ca3dc8..d11a192 100644
--- a/udapi/core/document.py
+++ b/udapi/core/document.py
@@ -65,7 +65,7 @@ class Document(object):
 
     def _reserve_bundle_id(self, bundle_id):
         """Make sure that `create_bundle()` will not assign the given ID to another bundle."""
-        if bundle_id is not None and bundle_id.isdecimal():
+        if str(bundle_id).isdecimal():
             self._highest_bundle_id = max(self._highest_bundle_id, int(bundle_id))
 
     def load_conllu(self, filename=None, **kwargs):
-- 
2.43.0


From 1551d0fc8ebf222981b49444aac1b5cd2164027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:14 +0000
Subject: [PATCH 80/99] fix: find_minimal_common_treelet() stopped climbing
 when one of the nodes reached the root

---
 udapi/core/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index daaa17c..119c995 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -1222,7 +1222,7 @@ def find_minimal_common_treelet(*args):
     # If we climb up to the root of the whole tree, we save the root in `highest`.
     new_nodes = {}
     highest = None
-    while len(nodes) > 1:
+    while len(nodes) > (1 if highest is None else 0):
         node = nodes.pop(0)  # TODO deque
         parent = node._parent
         if parent is None:
-- 
2.43.0


From 8407a179f8798ed70f08f7517b5ea70e42a23314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:15 +0000
Subject: [PATCH 81/99] fix: the technical root is not a gap of any subtree
 (is_nonprojective_gap)

---
 udapi/core/node.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/core/node.py b/udapi/core/node.py
index 119c995..cab20c1 100644
--- a/udapi/core/node.py
+++ b/udapi/core/node.py
@@ -953,6 +953,8 @@ class Node(object):
         - this node is within span of X, i.e. it is between (word-order-wise)
           X's leftmost descendant (or X itself) and X's rightmost descendant (or X itself).
         """
+        if not self._parent:
+            return False
         ancestors = set([self])
         node = self
         while node._parent:
-- 
2.43.0


From d0383bf76d7e0ad8825e087f83043626862ad479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:15 +0000
Subject: [PATCH 82/99] fix: transform.Proj lifts also the words whose edges
 became non-projective by lifting other words

---
 udapi/block/transform/proj.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/udapi/block/transform/proj.py b/udapi/block/transform/proj.py
index 6e284b4..155959c 100644
--- a/udapi/block/transform/proj.py
+++ b/udapi/block/transform/proj.py
@@ -29,9 +29,16 @@ class Proj(Block):
         self.label = label
 
     def process_tree(self, tree):
+        orig_parents = {n.ord: n.parent for n in tree.descendants}
+        # Lifting a node may make the edge of another node non-projective, so it has to be repeated.
         nonprojs = [self.nonproj_info(n) for n in tree.descendants if n.is_nonprojective()]
-        for nonproj in sorted(nonprojs, key=lambda info: info[0]):
-            self.lift(nonproj[1])
+        while nonprojs:
+            for nonproj in sorted(nonprojs, key=lambda info: info[0]):
+                self.lift(nonproj[1])
+            nonprojs = [self.nonproj_info(n) for n in tree.descendants if n.is_nonprojective()]
+        for node in tree.descendants:
+            if node.parent is not orig_parents[node.ord]:
+                self.mark(node, orig_parents[node.ord].udeprel)
 
     def nonproj_info(self, node):
         if self.lifting_order == 'shortest':
@@ -46,14 +53,8 @@ class Proj(Block):
         return (-depth, node)
 
     def lift(self, node):
-        orig_parent = node.parent
-        depth = 0
         while node.is_nonprojective():
             node.parent = node.parent.parent
-            depth += 1
-        if depth == 0:
-            return
-        self.mark(node, orig_parent.udeprel)
 
     def mark(self, node, label):
         if self.label == 'misc':
-- 
2.43.0


From 739ff86c8851b74bc73fa9a28f58208a5f66749c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:48 +0000
Subject: [PATCH 83/99] fix: transform.Flatten oneroot=1 failed on empty trees

---
 udapi/block/transform/flatten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/transform/flatten.py b/udapi/block/transform/flatten.py
index d218ad2..5fefff0 100644
--- a/udapi/block/transform/flatten.py
+++ b/udapi/block/transform/flatten.py
@@ -18,7 +18,7 @@ class Flatten(Block):
         for node in tree.descendants:
             node.parent = node.root
             node.deprel = 'root'
-        if self.oneroot:
+        if self.oneroot and tree.descendants:
             first = tree.descendants[0]
             for node in tree.descendants[1:]:
                 node.parent = first
-- 
2.43.0


From d0ed1cdb239402b5643eb3a44699555523448e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:17 +0000
Subject: [PATCH 84/99] fix: load further coref attributes stored before the
 field "other"

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index ec9fd00..cad7fe2 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -673,7 +673,7 @@ def load_coref_from_misc(doc, strict=True):
                     elif name == 'other':
                         if other:
                             new_other = OtherDualDict(value)
-                            for k,v in other.values():
+                            for k, v in other.items():
                                 new_other[k] = v
                             other = new_other
                         else:
-- 
2.43.0


From e5efaf42ca322275494a034ea6d26723e68b9e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:17 +0000
Subject: [PATCH 85/99] fix: keep mention attributes with the name of a
 standard field of global.Entity

---
 udapi/core/coref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/coref.py b/udapi/core/coref.py
index cad7fe2..29fa4d8 100644
--- a/udapi/core/coref.py
+++ b/udapi/core/coref.py
@@ -794,7 +794,7 @@ def store_coref_to_misc(doc, strict=False):
 
     fields = global_entity.split('-')
     # GRP and entity are legacy names for eid and etype, respectively.
-    other_fields = [f for f in fields if f not in ('eid etype head other GRP entity'.split(), )]
+    other_fields = [f for f in fields if f not in 'eid etype head other GRP entity'.split()]
 
     attrs = "Entity SplitAnte Bridge".split()
     for node in doc.nodes_and_empty:
-- 
2.43.0


From 749944cd96c0d9bd06f8513a769d56bbac9dfe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:56 +0000
Subject: [PATCH 86/99] fix: a parameter whose value is a superscript digit is
 a string

---
 udapi/core/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/core/run.py b/udapi/core/run.py
index 8ac63e1..1a4e9d6 100644
--- a/udapi/core/run.py
+++ b/udapi/core/run.py
@@ -60,7 +60,7 @@ def _parse_command_line_arguments(scenario):
                 'Block attribute pair %r without a prior block name', token)
 
         # Put it as a new argument for the previous block
-        if attribute_value.isdigit():
+        if attribute_value.isdecimal():
             attribute_value = int(attribute_value)
         block_args[-1][attribute_name] = attribute_value
 
-- 
2.43.0


From 85262eff7029b3a979414b95546b68c317c97af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:56 +0000
Subject: [PATCH 87/99] fix: if_empty_tree applies only to trees in the
 selected zones

---
 udapi/core/block.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/udapi/core/block.py b/udapi/core/block.py
index 19af047..9d4aecf 100644
--- a/udapi/core/block.py
+++ b/udapi/core/block.py
@@ -142,7 +142,16 @@ class Block(object):
         """This method is called after each process_document."""
         pass
 
+    def _is_in_zones(self, tree):
+        if self.zones == 'all':
+            return True
+        if self.zones == '' and tree.zone == '':
+            return True
+        return tree.zone in self.zones.split(',')
+
     def _should_process_tree(self, tree):
+        if not self._is_in_zones(tree):
+            return False
         if self.if_empty_tree != 'process' and not tree.descendants:
             if self.if_empty_tree == 'skip':
                 return False
@@ -157,10 +166,4 @@ class Block(object):
             else:
                 raise ValueError("Unknown value for if_empty_tree: "
                                  + self.if_empty_tree)
-        if self.zones == 'all':
-            return True
-        if self.zones == '' and tree.zone == '':
-            return True
-        if tree.zone in self.zones.split(','):
-            return True
-        return False
+        return True
-- 
2.43.0


From dc6f8bf12088ab49ef810bf39fa6ab6b21b5f384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:56 +0000
Subject: [PATCH 88/99] fix: util.Filter keep_tree_if_node does not skip the
 parameters after it

---
 udapi/block/util/filter.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/udapi/block/util/filter.py b/udapi/block/util/filter.py
index 811973e..123d0ec 100644
--- a/udapi/block/util/filter.py
+++ b/udapi/block/util/filter.py
@@ -108,13 +108,12 @@ class Filter(Block):
             for node in tree.descendants:
                 if eval(self.keep_tree_if_node):
                     found = True
-                    if self.mark:
-                        node.misc['Mark'] = self.mark
-                    else:
-                        return
+                    if not self.mark:
+                        break
+                    node.misc['Mark'] = self.mark
             if not found:
                 tree.remove()
-            return
+                return
 
         if self.keep_subtree is not None:
             kept_subtrees = []
-- 
2.43.0


From 3d7bef54fbcadb40f5c95d34c6b4f194ef883d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:56 +0000
Subject: [PATCH 89/99] fix: files in a filelist are relative to the filelist,
 absolute names and files=@- work

---
 udapi/core/files.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/udapi/core/files.py b/udapi/core/files.py
index 87de976..bdb010c 100644
--- a/udapi/core/files.py
+++ b/udapi/core/files.py
@@ -69,12 +69,13 @@ class Files(object):
             if not filenames:
                 raise RuntimeError('No filenames matched "%s" pattern' % pattern)
         elif token[0] == '@':
-            filelist_name = sys.stdin if token == '@-' else token[1:]
-            with open(filelist_name, encoding='utf-8') as filelist:
+            if token == '@-':
+                filelist = io.TextIOWrapper(sys.stdin.buffer, encoding='utf-8')
+                return [line.rstrip('\n') for line in filelist]
+            with open(token[1:], encoding='utf-8') as filelist:
                 filenames = [line.rstrip('\n') for line in filelist]
             directory = os.path.dirname(token[1:])
-            if directory != '.':
-                filenames = [f if f[0] != '/' else directory + '/' + f for f in filenames]
+            filenames = [os.path.join(directory, f) for f in filenames]
         else:
             filenames = [token]
         return filenames
-- 
2.43.0


From 26ddfb3b82673d635d9572d416baff200882990a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:20 +0000
Subject: [PATCH 90/99] fix: write.TextModeTrees hints=0 draws edges up to the
 words

---
 udapi/block/write/textmodetrees.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/textmodetrees.py b/udapi/block/write/textmodetrees.py
index 9af99b1..bcc1435 100644
--- a/udapi/block/write/textmodetrees.py
+++ b/udapi/block/write/textmodetrees.py
@@ -276,7 +276,7 @@ class TextModeTrees(BaseWriter):
             max_length = max([self.lengths[i] for i in range(min_idx, max_idx + 1)])
             for idx in range(min_idx, max_idx + 1):
                 idx_node = allnodes[idx]
-                filler = '─' if self._ends(idx, '─╭╰╪┡┢') else ' '
+                filler = '─' if self._ends(idx, '─╭╰╪├┡┢') else ' '
                 self._add(idx, filler * (max_length - self.lengths[idx]))
 
                 topmost = idx == min_idx
@@ -287,7 +287,7 @@ class TextModeTrees(BaseWriter):
                         self.add_node(idx, node)
                 else:
                     if idx_node.parent is not node:
-                        self._add(idx, self._vert[self._ends(idx, '─╭╰╪┡┢')])
+                        self._add(idx, self._vert[self._ends(idx, '─╭╰╪├┡┢')])
                     else:
                         precedes_parent = idx < self._index_of[node.ord]
                         self._add(idx, self._space[precedes_parent][topmost or botmost])
-- 
2.43.0


From e44dd4d8625c70ca3309877c222e91ae904b3965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:20 +0000
Subject: [PATCH 91/99] fix: write.TextModeTreesHtml with whole_bundle prints
 only the selected zones

---
 udapi/block/write/textmodetreeshtml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udapi/block/write/textmodetreeshtml.py b/udapi/block/write/textmodetreeshtml.py
index 1101d27..fc95869 100644
--- a/udapi/block/write/textmodetreeshtml.py
+++ b/udapi/block/write/textmodetreeshtml.py
@@ -96,9 +96,10 @@ class TextModeTreesHtml(TextModeTrees):
     def process_bundle(self, bundle):
         if self.zones_in_rows:
             # Don't print <table><tr></tr></table> if no tree will be printed in this bundle.
-            marked_trees = []
+            marked_trees, selected_trees = [], []
             for tree in bundle:
                 if self._should_process_tree(tree):
+                    selected_trees.append(tree)
                     if self.print_empty:
                         allnodes = [tree] + tree.descendants_and_empty
                     else:
@@ -107,7 +108,7 @@ class TextModeTreesHtml(TextModeTrees):
                         marked_trees.append(tree)
             if marked_trees:
                 if self.whole_bundle:
-                    marked_trees = bundle
+                    marked_trees = selected_trees
                 print("<table><tr>")
                 for tree in marked_trees:
                     print("<td>")
-- 
2.43.0


From 87ae28de1ceb57b1ae1cc87ef945513535253e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:20 +0000
Subject: [PATCH 92/99] fix: write.Treex gives different ids to the trees of
 one bundle

---
 udapi/block/write/treex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/write/treex.py b/udapi/block/write/treex.py
index 07273d3..d9eeaba 100644
--- a/udapi/block/write/treex.py
+++ b/udapi/block/write/treex.py
@@ -29,7 +29,7 @@ class Treex(BaseWriter):
     def process_tree(self, tree):
         zone_parts = tree.zone.split('_')
         language, selector = zone_parts if len(zone_parts) == 2 else ('und', tree.zone)
-        tree_id = tree.bundle.bundle_id + '-' + language
+        tree_id = tree.bundle.bundle_id + '-' + language + ('_' + selector if selector else '')
         ind = ' ' * 8
         print(ind + "<zone language='%s' selector='%s'>" % (escape(language), escape(selector)))
         if tree.text:
-- 
2.43.0


From 79c26f19c42f98ec465342a6354b90d41b48bd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:20 +0000
Subject: [PATCH 93/99] fix: read.Vislcg reads all features, escaped characters
 and the last multiword token

---
 udapi/block/read/vislcg.py | 44 ++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/udapi/block/read/vislcg.py b/udapi/block/read/vislcg.py
index 753c298..b8f334e 100644
--- a/udapi/block/read/vislcg.py
+++ b/udapi/block/read/vislcg.py
@@ -1,6 +1,7 @@
 """Vislcg is a reader block the VISL-cg format."""
 from udapi.core.basereader import BaseReader
 from udapi.core.root import Root
+from udapi.block.write.vislcg import ESCAPE_TABLE
 
 
 class Vislcg(BaseReader):
@@ -33,23 +34,12 @@ class Vislcg(BaseReader):
                 continue
 
             if words:
-                words[0].form = form
-                if len(words) > 1:
-                    split_forms = form.split()
-                    if len(words) == len(split_forms):
-                        for word, split_form in zip(words, split_forms):
-                            word.form = split_form
-                    else:
-                        for word in words[1:]:
-                            word.form = '_'
-                    root.create_multiword_token(words, form=form)
+                self._add_forms(words, form, root)
                 words = []
-            form = line[2:-2]
+            form = self._unescape(line[2:-2])
 
         if words:
-            words[0].form = form
-            for word in words[1:]:
-                word.form = '_'
+            self._add_forms(words, form, root)
 
         nodes = root.descendants(add_self=True)
         if len(nodes) == 1:
@@ -62,16 +52,34 @@ class Vislcg(BaseReader):
         return root
 
     @staticmethod
-    def _node(line, root):
+    def _add_forms(words, form, root):
+        words[0].form = form
+        if len(words) > 1:
+            split_forms = form.split()
+            if len(words) == len(split_forms):
+                for word, split_form in zip(words, split_forms):
+                    word.form = split_form
+            else:
+                for word in words[1:]:
+                    word.form = '_'
+            root.create_multiword_token(words, form=form)
+
+    @staticmethod
+    def _unescape(string):
+        for char, escaped in reversed(list(ESCAPE_TABLE.items())):
+            string = string.replace(escaped, char)
+        return string
+
+    def _node(self, line, root):
         # line contains "lemma" xpos feat1 feat2 .. featN @deprel #ord->parent.ord
         # Lemma can contain spaces, but quotes within lemma are not escaped,
         # so we cannot use fields = shlex.split(line)
         # Let's hope that xpos, feats and deprel do not contain any quotes.
         end_quote_pos = line.rfind('"')
-        lemma = line[1:end_quote_pos]
+        lemma = self._unescape(line[1:end_quote_pos])
         fields = line[end_quote_pos + 1:].split()
-        xpos = fields[0]
-        feats_list = fields[3:-2]
+        xpos = self._unescape(fields[0])
+        feats_list = [self._unescape(feat) for feat in fields[1:-2]]
         feats = '|'.join(feats_list) if feats_list else '_'
         deprel = fields[-2][1:]
         parent_ord = int(fields[-1].split('->')[1])
-- 
2.43.0


From e0d8b207eaf5783a86fd992acd038a779aae2a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:26 +0000
Subject: [PATCH 94/99] fix: writers write missing attributes as an underscore
 instead of failing or writing None

---
 udapi/block/write/sdparse.py | 4 ++--
 udapi/block/write/tikz.py    | 6 +++---
 udapi/block/write/treex.py   | 2 +-
 udapi/block/write/vislcg.py  | 6 +++---
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/udapi/block/write/sdparse.py b/udapi/block/write/sdparse.py
index 1348773..e452d64 100644
--- a/udapi/block/write/sdparse.py
+++ b/udapi/block/write/sdparse.py
@@ -71,7 +71,7 @@ class Sdparse(BaseWriter):
             if not node.parent.is_root():
                 gov = self._form(node.parent, forms)
                 dep = self._form(node, forms)
-                print('%s(%s, %s)' % (node.deprel, gov, dep))
+                print('%s(%s, %s)' % (node.deprel or '_', gov, dep))
 
         print('~~~')
         print('')
@@ -88,7 +88,7 @@ class Sdparse(BaseWriter):
     def _node(self, node):
         string = self._escape(node.form)
         if self.print_upos:
-            string += '/' + node.upos
+            string += '/' + (node.upos or '_')
         if self.print_feats:
             feats = str(node.feats)
             if feats != '_':
diff --git a/udapi/block/write/tikz.py b/udapi/block/write/tikz.py
index 0445bf9..b2cb53d 100644
--- a/udapi/block/write/tikz.py
+++ b/udapi/block/write/tikz.py
@@ -122,7 +122,7 @@ class Tikz(BaseWriter):
 
         lines = ['' for _ in self.node_attributes]
         for node in nodes:
-            values = [self._tex_escape(v) for v in node.get_attrs(self.node_attributes)]
+            values = [self._tex_escape(v) for v in node.get_attrs(self.node_attributes, undefs='_')]
             max_len = max(len(value) for value in values)
             for index, value in enumerate(values):
                 if node.ord > 1:
@@ -143,13 +143,13 @@ class Tikz(BaseWriter):
                     print('')
                 else:
                     print(r' \draw[depedge] (w%d)--node[deplabel] {%s} (w%d);'
-                          % (node.ord, self._tex_escape(node.deprel), node.parent.ord))
+                          % (node.ord, self._tex_escape(node.deprel or '_'), node.parent.ord))
         else:
             for node in nodes:
                 if node.parent.is_root():
                     print(r'\deproot{%d}{root}' % node.ord)
                 else:
-                    print(r'\depedge{%d}{%d}{%s}' % (node.parent.ord, node.ord, self._tex_escape(node.deprel)))
+                    print(r'\depedge{%d}{%d}{%s}' % (node.parent.ord, node.ord, self._tex_escape(node.deprel or '_')))
                 if self.enhanced:
                     for dep in node.deps:
                         if dep['parent'].is_root():
diff --git a/udapi/block/write/treex.py b/udapi/block/write/treex.py
index d9eeaba..7316960 100644
--- a/udapi/block/write/treex.py
+++ b/udapi/block/write/treex.py
@@ -54,7 +54,7 @@ class Treex(BaseWriter):
             if node.deprel:
                 print(ind + "<deprel>%s</deprel>" % escape(node.deprel))
             print(ind + "<conll><pos>%s</pos><feat>%s</feat></conll>"
-                  % (escape(str(node.xpos)), escape(str(node.feats))))
+                  % (escape(node.xpos or '_'), escape(str(node.feats))))
 
         # TODO misc and deps into wild, but probably need to encode ř as \x{159} etc.
         if node.children:
diff --git a/udapi/block/write/vislcg.py b/udapi/block/write/vislcg.py
index acdf1e8..e9e9713 100644
--- a/udapi/block/write/vislcg.py
+++ b/udapi/block/write/vislcg.py
@@ -75,11 +75,11 @@ class Vislcg(BaseWriter):
         return ''.join(ESCAPE_TABLE.get(c, c) for c in string)
 
     def _node(self, node):
-        attrs = ['"%s"' % self._escape(node.lemma)]
-        attrs.append(self._escape(node.xpos))
+        attrs = ['"%s"' % self._escape(node.lemma or '_')]
+        attrs.append(self._escape(node.xpos or '_'))
         feats = str(node.feats).replace('|', ' ')
         if feats != '_':
             attrs.append(self._escape(feats))
-        attrs.append('@' + node.deprel)
+        attrs.append('@' + (node.deprel or '_'))
         attrs.append('#%d->%d' % (node.ord, node.parent.ord))
         return ' '.join(attrs)
-- 
2.43.0


From a7045f475b8036403108fdcf5e4b7d67f5e8ebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:20 +0000
Subject: [PATCH 95/99] fix: segment.Simple never recognized the abbreviation
 e.g.

---
 udapi/block/segment/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/udapi/block/segment/simple.py b/udapi/block/segment/simple.py
index 9befa87..9743de2 100644
--- a/udapi/block/segment/simple.py
+++ b/udapi/block/segment/simple.py
@@ -22,7 +22,7 @@ class Simple(Block):
     @staticmethod
     def is_nonfinal_abbrev(token):
         """Is a given token an abbreviation (without the final period) which cannot end a sentence?"""
-        if re.search('(např|e.g.)$', token):
+        if re.search(r'(např|e\.g)$', token):
             return True
         return False
 
-- 
2.43.0


From a63636c3b6e879605ead1100ec7664d7e206e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:20 +0000
Subject: [PATCH 96/99] fix: ud.FixMwtSpace lost SpaceAfter=No of the removed
 multiword token

---
 udapi/block/ud/fixmwtspace.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/udapi/block/ud/fixmwtspace.py b/udapi/block/ud/fixmwtspace.py
index a2b7b87..b1355bc 100644
--- a/udapi/block/ud/fixmwtspace.py
+++ b/udapi/block/ud/fixmwtspace.py
@@ -19,4 +19,6 @@ class FixMwtSpace(Block):
                 if node == mwt.words[0]:
                     wordforms = [x.form for x in mwt.words]
                     if ' '.join(wordforms) == mwt.form:
+                        if mwt.misc['SpaceAfter'] == 'No':
+                            mwt.words[-1].misc['SpaceAfter'] = 'No'
                         mwt.remove()
-- 
2.43.0


From 60627aebbe4e11ada2937c1e9efeb33c289798df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:20 +0000
Subject: [PATCH 97/99] fix: ud.SetSpaceAfter failed on short trees and
 remembered the quotes of previous trees

---
 udapi/block/ud/setspaceafter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/udapi/block/ud/setspaceafter.py b/udapi/block/ud/setspaceafter.py
index 04c9fff..c7eedca 100644
--- a/udapi/block/ud/setspaceafter.py
+++ b/udapi/block/ud/setspaceafter.py
@@ -37,13 +37,13 @@ class SetSpaceAfter(Block):
         # Some languages use directed „quotes“ and some “quotes”,
         # so the symbol “ (U+201C) is ambiguous and we heuristically check for presence of „.
         if count_of_form['„']:
-            not_before += ['“']
+            not_before = not_before + ['“']
         else:
-            not_after += ['“']
+            not_after = not_after + ['“']
 
         for i, node in enumerate(nodes[:-1]):
             next_form = nodes[i + 1].form
-            if node.form in self.not_after or next_form in not_before:
+            if node.form in not_after or next_form in not_before:
                 self.mark_no_space(node)
             if node.form == '"':
                 if matching_quotes:
@@ -55,7 +55,7 @@ class SetSpaceAfter(Block):
                 elif i==0:
                     self.mark_no_space(node)
 
-        if nodes[-1].form == '"':
+        if len(nodes) > 1 and nodes[-1].form == '"':
             self.mark_no_space(nodes[-2])
 
         if self.fix_text and self.changed:
-- 
2.43.0


From 55e490f3fcdd8fb2a457abe133df000a322095d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:20 +0000
Subject: [PATCH 98/99] fix: ud.ComplyWithText failed or lost forms if the text
 differs at its end

---
 udapi/block/ud/complywithtext.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index b36b251..6186843 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -162,13 +162,13 @@ class ComplyWithText(Block):
         for diff in orig_diffs:
             edit, tree_lo, tree_hi, text_lo, text_hi = diff
             if edit != 'insert':
-                if tree_chars[tree_lo] == ' ':
+                if tree_lo < tree_hi and tree_chars[tree_lo] == ' ':
                     tree_lo += 1
-                if tree_chars[tree_hi - 1] == ' ':
+                if tree_lo < tree_hi and tree_chars[tree_hi - 1] == ' ':
                     tree_hi -= 1
-                if text[text_lo] == ' ':
+                if text_lo < text_hi and text[text_lo] == ' ':
                     text_lo += 1
-                if text[text_hi - 1] == ' ':
+                if text_lo < text_hi and text[text_hi - 1] == ' ':
                     text_hi -= 1
             old = tree_chars[tree_lo:tree_hi]
             new = text[text_lo:text_hi]
@@ -178,6 +178,8 @@ class ComplyWithText(Block):
                 edit = 'equal'
             elif old == '':
                 edit = 'insert'
+            elif new == '':
+                edit = 'delete'
             diffs.append((edit, tree_lo, tree_hi, text_lo, text_hi))
         return diffs
 
-- 
2.43.0


From 6202e633ce47d3d341f2501dcd3e12376b291c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:20 +0000
Subject: [PATCH 99/99] fix: ud.ComplyWithText failed on multiword tokens and
 empty trees

---
 udapi/block/ud/complywithtext.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/udapi/block/ud/complywithtext.py b/udapi/block/ud/complywithtext.py
index 6186843..e7df6a3 100644
--- a/udapi/block/ud/complywithtext.py
+++ b/udapi/block/ud/complywithtext.py
@@ -227,8 +227,8 @@ class ComplyWithText(Block):
                 pass
             elif edit == 'insert':
                 forms = text[text_lo:text_hi].split(' ')
-                if all(regex.fullmatch('\p{P}+', f) for f in forms) and self.allow_add_punct:
-                    next_node = char_nodes[tree_lo]
+                if char_nodes and all(regex.fullmatch('\p{P}+', f) for f in forms) and self.allow_add_punct:
+                    next_node = char_nodes[tree_lo].words[0]
                     for f in reversed(forms):
                         new = next_node.create_child(form=f, deprel='punct', upos='PUNCT')
                         new.shift_before_node(next_node)
@@ -241,7 +241,8 @@ class ComplyWithText(Block):
                 if all(regex.fullmatch('\p{P}+', n.form) for n in nodes):
                     if self.allow_delete_punct:
                         for node in nodes:
-                            node.remove(children='rehang')
+                            for word in list(node.words):
+                                word.remove(children='rehang')
                     else:
                         logging.warning('Unable to delete punctuation nodes (try ud.ComplyWithText allow_delete_punct=1)\n%s',
                                         _diff2str(diff, tree_chars, text))
@@ -270,7 +271,7 @@ class ComplyWithText(Block):
                     if self.allow_space(form):
                         self.store_previous_form(node)
                         node.form = form
-                    elif self.allow_goeswith:
+                    elif self.allow_goeswith and not isinstance(node, MWT):
                         self.store_previous_form(node)
                         forms = form.split()
                         node.form = forms[0]
@@ -282,8 +283,8 @@ class ComplyWithText(Block):
                         logging.warning('Unable to solve 1:m diff:\n%s -> %s', nodes_str, form)
                 elif self.allow_add_punct and form.startswith(node.form) and regex.fullmatch('[ \p{P}]+', form[len(node.form):]):
                     for punct_form in reversed(form[len(node.form):].split()):
-                        new = node.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
-                        new.shift_after_node(node)
+                        new = node.words[-1].create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
+                        new.shift_after_node(node.words[-1])
                         new.misc[self.added_label] = 1
                 else:
                     logging.warning('Unable to solve 1:m diff:\n%s -> %s', nodes_str, form)
@@ -311,8 +312,8 @@ class ComplyWithText(Block):
         else:
             if self.allow_add_punct and form.startswith(node.form) and regex.fullmatch('\p{P}+', form[len(node.form):]):
                 punct_form = form[len(node.form):]
-                new = node.create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
-                new.shift_after_node(node)
+                new = node.words[-1].create_child(form=punct_form, lemma=punct_form, deprel='punct', upos='PUNCT')
+                new.shift_after_node(node.words[-1])
                 new.misc[self.added_label] = 1
             else:
                 self.store_previous_form(node)
-- 
2.43.0

