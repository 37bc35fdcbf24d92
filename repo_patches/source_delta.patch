From 42f4cda8ea25fc5a7966c37923f0880fefe42aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:13 +0000
Subject: [PATCH 01/27] fix: detach a removed node from every one of its
 parents

_remove_node() iterated over node.parents while _destroy_relationship()
removed entries from that very list, so every second parent kept the id of
the removed node among its children (and was not notified).
---
 liblarch/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index f2b3548..974998c 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -235,7 +235,7 @@ class MainTree(object):
         node = self.nodes[node_id]
 
         # Handle parents
-        for parent_id in node.parents:
+        for parent_id in list(node.parents):
             self._destroy_relationship(parent_id, node_id)
             self._callback('node-modified', parent_id)
 
-- 
2.43.0


From 6f365789ad623dddf27417d6657a764a1922c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 02/27] fix: set_parent() replaces all the parents, or none
 when it is refused

The loop removed entries from the list it was iterating over, so a node
with several parents kept every second one. The parents were also removed
before the new relationship was checked: when it was refused as circular,
the node had lost its parents.
---
 liblarch/treenode.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index cc26dcd..0a3ce67 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -90,7 +90,6 @@ class _Node(object):
     def set_parent(self, parent_id):
         """ Remove other parents and set this parent as only parent """
         if parent_id != self.get_id() and self.parents_enabled:
-            is_already_parent_flag = False
             if not self.tree:
                 self.pending_relationships.append((parent_id, self.get_id()))
             elif not self.tree.has_node(parent_id):
@@ -101,14 +100,13 @@ class _Node(object):
             else:
                 par = self.tree.get_node(parent_id)
                 if par.has_children_enabled():
-                    # First we remove all the other parents
-                    for node_id in self.parents:
+                    # First we add the new parent: if it is refused (circular
+                    # relationship), the current parents have to stay
+                    self.add_parent(parent_id)
+                    # Then we remove all the other parents
+                    for node_id in self.get_parents():
                         if node_id != parent_id:
                             self.remove_parent(node_id)
-                        else:
-                            is_already_parent_flag = True
-                    if parent_id and not is_already_parent_flag:
-                        self.add_parent(parent_id)
 
     def remove_parent(self, parent_id):
         """ Remove parent """
-- 
2.43.0


From d20b6049821f12d4a34739713ec5cb9469b6e2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:51 +0000
Subject: [PATCH 03/27] fix: let only the request queue change relationships of
 a tree

add_parent(), add_child(), set_parent() and remove_parent() changed the
lists of the node and of the tree directly, in the calling thread, before
(or instead of) queueing the request, racing with the thread which owns
the tree. Queue the request and leave the change to its handler.
---
 liblarch/tree.py     |  3 ++-
 liblarch/treenode.py | 11 +++--------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 974998c..256112f 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -308,7 +308,8 @@ class MainTree(object):
 
         # Move to root if beak the last parent
         if self.nodes[child_id].get_parents() == []:
-            self.root.add_child(child_id)
+            if child_id not in self.root.children:
+                self.root.children.append(child_id)
 
         self._callback('node-modified', parent_id)
         self._callback('node-modified', child_id)
diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index 0a3ce67..f0a5b50 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -80,8 +80,7 @@ class _Node(object):
             if not self.tree:
                 self.pending_relationships.append((parent_id, self.get_id()))
             elif not self.tree.has_node(parent_id):
-                self.tree.pending_relationships.append(
-                    (parent_id, self.get_id()))
+                self.tree.new_relationship(parent_id, self.get_id())
             else:
                 par = self.tree.get_node(parent_id)
                 if par.has_children_enabled():
@@ -95,8 +94,7 @@ class _Node(object):
             elif not self.tree.has_node(parent_id):
                 for p in self.get_parents():
                     self.tree.break_relationship(p, self.get_id())
-                self.tree.pending_relationships.append(
-                    (parent_id, self.get_id()))
+                self.tree.new_relationship(parent_id, self.get_id())
             else:
                 par = self.tree.get_node(parent_id)
                 if par.has_children_enabled():
@@ -111,7 +109,6 @@ class _Node(object):
     def remove_parent(self, parent_id):
         """ Remove parent """
         if self.parents_enabled and parent_id in self.parents:
-            self.parents.remove(parent_id)
             self.tree.break_relationship(parent_id, self.node_id)
 
     def has_parent(self, parent_id=None):
@@ -158,12 +155,10 @@ class _Node(object):
                     self.pending_relationships.append(
                         (self.get_id(), child_id))
                 elif not self.tree.has_node(child_id):
-                    self.tree.pending_relationships.append(
-                        (self.get_id(), child_id))
+                    self.tree.new_relationship(self.get_id(), child_id)
                 else:
                     child = self.tree.get_node(child_id)
                     if child.has_parents_enabled():
-                        self.children.append(child_id)
                         self.tree.new_relationship(self.node_id, child_id)
             else:
                 print("{} was already in children of {}".format(
-- 
2.43.0


From ff3299aa43d79d6a88d90a292f8649b77076d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:34 +0000
Subject: [PATCH 04/27] fix: set_parent() also replaces parents which are not
 in the tree yet

A relationship with a parent to come survived set_parent(): when that
parent was added at last, the node got it as an additional parent.
---
 liblarch/treenode.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index f0a5b50..c833e14 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -90,11 +90,15 @@ class _Node(object):
         """ Remove other parents and set this parent as only parent """
         if parent_id != self.get_id() and self.parents_enabled:
             if not self.tree:
+                self.pending_relationships = [
+                    relationship for relationship in self.pending_relationships
+                    if relationship[1] != self.get_id()]
                 self.pending_relationships.append((parent_id, self.get_id()))
             elif not self.tree.has_node(parent_id):
                 for p in self.get_parents():
                     self.tree.break_relationship(p, self.get_id())
                 self.tree.new_relationship(parent_id, self.get_id())
+                self.__forget_expected_parents(parent_id)
             else:
                 par = self.tree.get_node(parent_id)
                 if par.has_children_enabled():
@@ -105,6 +109,14 @@ class _Node(object):
                     for node_id in self.get_parents():
                         if node_id != parent_id:
                             self.remove_parent(node_id)
+                    self.__forget_expected_parents(parent_id)
+
+    def __forget_expected_parents(self, parent_id):
+        """ Drop relationships with all parents but parent_id which are
+        waiting for that parent to be added to the tree """
+        for pending_id, child_id in list(self.tree.pending_relationships):
+            if child_id == self.get_id() and pending_id != parent_id:
+                self.tree.break_relationship(pending_id, child_id)
 
     def remove_parent(self, parent_id):
         """ Remove parent """
-- 
2.43.0


From 01b9714dc5f377abac7b11e79108ea851557fd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:44 +0000
Subject: [PATCH 05/27] fix: notify about an orphan only after it is back at
 the root

When its parent was removed, 'node-modified' of the child was sent while
the child was neither below a parent nor at the root.
---
 liblarch/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 256112f..b263d29 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -245,9 +245,9 @@ class MainTree(object):
                 self._remove_node(child_id, True)
             else:
                 self._destroy_relationship(node_id, child_id)
-                self._callback('node-modified', child_id)
                 if self.nodes[child_id].parents == []:
                     self.root.children.append(child_id)
+                self._callback('node-modified', child_id)
 
         if node_id in self.root.children:
             self.root.children.remove(node_id)
-- 
2.43.0


From 588b2f19bcc0b01017ddc061cb5f287fdea0bf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:04 +0000
Subject: [PATCH 06/27] fix: do not leave a half added node behind when
 add_node() is refused

A circular relationship with the given parent was detected after the node
had been stored and its pending relationships had been built: the node was
in the tree, but neither below a parent nor at the root, and nobody was
notified. Check it first and give the given parent precedence over pending
relationships, which are dropped if they would be circular, as before.
---
 liblarch/tree.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index b263d29..ba136dc 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -159,6 +159,13 @@ class MainTree(object):
             print("Error: Node '%s' already exists" % node_id)
             return False
 
+        # Refuse to build a circular relationship before anything is changed
+        if (parent_id is not None and
+                self._is_circular_relation(parent_id, node_id)):
+            raise Exception(
+                'Creating circular relationship between {} and {}'.format(
+                    parent_id, node_id))
+
         _Node._set_tree(node, self)
         for relationship in node.pending_relationships:
             if relationship not in self.pending_relationships:
@@ -171,6 +178,15 @@ class MainTree(object):
         parents_to_refresh = []
         children_to_refresh = []
 
+        # Build relationship with given parent
+        if parent_id is not None:
+            if parent_id in self.nodes:
+                self._create_relationship(parent_id, node_id)
+                add_to_root = False
+                parents_to_refresh.append(parent_id)
+            else:
+                self.pending_relationships.append((parent_id, node_id))
+
         # Build pending relationships
         for rel_parent_id, rel_child_id in list(self.pending_relationships):
             # Adding as a child
@@ -195,19 +211,6 @@ class MainTree(object):
                           rel_parent_id, rel_child_id)
                 self.pending_relationships.remove((rel_parent_id, rel_child_id))
 
-        # Build relationship with given parent
-        if parent_id is not None:
-            if self._is_circular_relation(parent_id, node_id):
-                raise Exception(
-                    'Creating circular relationship between {} and {}'.format(
-                        parent_id, node_id))
-            if parent_id in self.nodes:
-                self._create_relationship(parent_id, node_id)
-                add_to_root = False
-                parents_to_refresh.append(parent_id)
-            else:
-                self.pending_relationships.append((parent_id, node_id))
-
         # Add at least to root
         if add_to_root:
             self.root.children.append(node_id)
-- 
2.43.0


From 2ec77b537bcf3bfbcab83e7f888593ac33c2e3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:14 +0000
Subject: [PATCH 07/27] fix: respect disabled parents and children when nodes
 are added

add_node() and relationships which had been waiting for a node linked
nodes although the parent does not allow children or the child does not
allow parents. Such a node was in the tree, but not below any parent which
would list it and not at the root either.
---
 liblarch/tree.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index ba136dc..221de4f 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -125,6 +125,11 @@ class MainTree(object):
         if parent_id in child.parents:
             child.parents.remove(parent_id)
 
+    def _is_enabled_relation(self, parent_id, child_id):
+        """ Do both nodes allow this relationship? """
+        return (self.nodes[parent_id].has_children_enabled() and
+                self.nodes[child_id].has_parents_enabled())
+
     def _is_circular_relation(self, parent_id, child_id):
         """ Would the new relation be circular?
 
@@ -181,9 +186,10 @@ class MainTree(object):
         # Build relationship with given parent
         if parent_id is not None:
             if parent_id in self.nodes:
-                self._create_relationship(parent_id, node_id)
-                add_to_root = False
-                parents_to_refresh.append(parent_id)
+                if self._is_enabled_relation(parent_id, node_id):
+                    self._create_relationship(parent_id, node_id)
+                    add_to_root = False
+                    parents_to_refresh.append(parent_id)
             else:
                 self.pending_relationships.append((parent_id, node_id))
 
@@ -192,9 +198,10 @@ class MainTree(object):
             # Adding as a child
             if rel_child_id == node_id and rel_parent_id in self.nodes:
                 if not self._is_circular_relation(rel_parent_id, node_id):
-                    self._create_relationship(rel_parent_id, node_id)
-                    add_to_root = False
-                    parents_to_refresh.append(rel_parent_id)
+                    if self._is_enabled_relation(rel_parent_id, node_id):
+                        self._create_relationship(rel_parent_id, node_id)
+                        add_to_root = False
+                        parents_to_refresh.append(rel_parent_id)
                 else:
                     print("Error: Detected pending circular relationship",
                           rel_parent_id, rel_child_id)
@@ -204,8 +211,9 @@ class MainTree(object):
             # Adding as a parent
             if rel_parent_id == node_id and rel_child_id in self.nodes:
                 if not self._is_circular_relation(node_id, rel_child_id):
-                    self._create_relationship(node_id, rel_child_id)
-                    children_to_refresh.append(rel_child_id)
+                    if self._is_enabled_relation(node_id, rel_child_id):
+                        self._create_relationship(node_id, rel_child_id)
+                        children_to_refresh.append(rel_child_id)
                 else:
                     print("Error: Detected pending circular relationship",
                           rel_parent_id, rel_child_id)
@@ -278,6 +286,9 @@ class MainTree(object):
             self.pending_relationships.append((parent_id, child_id))
             return True
 
+        if not self._is_enabled_relation(parent_id, child_id):
+            return False
+
         if self._is_circular_relation(parent_id, child_id):
             self._destroy_relationship(parent_id, child_id)
             raise Exception(
-- 
2.43.0


From bdca9210743e7e86c484938109b5bdd2fdc493af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:24 +0000
Subject: [PATCH 08/27] fix: go on processing the queue when a request fails

An exception from a request made GLib drop the idle handler while the
queue still considered it to be installed: if requests were left, neither
they nor any request pushed later were ever processed.
---
 liblarch/processqueue.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/liblarch/processqueue.py b/liblarch/processqueue.py
index 1e9baac..3a3e8e8 100644
--- a/liblarch/processqueue.py
+++ b/liblarch/processqueue.py
@@ -18,6 +18,7 @@
 # -----------------------------------------------------------------------------
 
 import threading
+import traceback
 
 from gi.repository import GObject
 
@@ -42,7 +43,12 @@ class SyncQueue(object):
         """ Process requests from queue """
         for action in self.process():
             func = action[0]
-            func(*action[1:])
+            try:
+                func(*action[1:])
+            except Exception:
+                # A failed request must not stop processing of the others:
+                # GLib would drop this handler while we rely on it
+                traceback.print_exc()
         # return True to process other requests as well
         return True
 
-- 
2.43.0


From 0bde5f8bf9f7eb4ff6ca5b95b77ac3f4d4eb2a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:34 +0000
Subject: [PATCH 09/27] fix: make unregister_cllbck() of ViewCount work

It used an attribute which does not exist. Callbacks are called from a
copy of the list, because they can unregister themselves now.
---
 liblarch/viewcount.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index 6eeb1cb..4fac9f4 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -69,8 +69,8 @@ class ViewCount(object):
             self.cllbcks.append(func)
 
     def unregister_cllbck(self, func):
-        if func in self.cllbacks:
-            self.cllbacks.remove(func)
+        if func in self.cllbcks:
+            self.cllbcks.remove(func)
 
     def get_n_nodes(self):
         return len(self.nodes)
@@ -100,5 +100,6 @@ class ViewCount(object):
             self.__callback()
 
     def __callback(self):
-        for c in self.cllbcks:
+        # We copy the list to not loop on it while it could be modified
+        for c in list(self.cllbcks):
             c()
-- 
2.43.0


From 2b026b7e5bdb56791b5697613d558063ed4977d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 10/27] fix: count only existing nodes which pass existing
 filters

ViewCount crashed when one of its filters had been removed from the bank,
and without a filter it counted a node which is not in the tree.
---
 liblarch/viewcount.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/liblarch/viewcount.py b/liblarch/viewcount.py
index 4fac9f4..445bf06 100644
--- a/liblarch/viewcount.py
+++ b/liblarch/viewcount.py
@@ -80,10 +80,11 @@ class ViewCount(object):
         self.__modify(nid)
 
     def __modify(self, nid):
-        displayed = True
+        displayed = self.tree.has_node(nid)
         for filtname in self.applied_filters:
             filt = self.fbank.get_filter(filtname)
-            displayed &= filt.is_displayed(nid)
+            # As in FilteredTree, nothing passes a filter which was removed
+            displayed = bool(displayed and filt and filt.is_displayed(nid))
         if displayed:
             self.__add(nid)
         else:
-- 
2.43.0


From 64064737e30017fcd1bfb16b43b033f190127471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:14 +0000
Subject: [PATCH 11/27] fix: do not crash when a filter named with a leading
 '!' is added

The filter object was only created in the other branch. The name is also
stripped before it is looked up, so that an existing filter of that name
is not replaced.
---
 liblarch/filters_bank.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/liblarch/filters_bank.py b/liblarch/filters_bank.py
index 8bbd9ab..a54626f 100644
--- a/liblarch/filters_bank.py
+++ b/liblarch/filters_bank.py
@@ -101,12 +101,12 @@ class FiltersBank(object):
         Return True if the filter was added
         Return False if the filter_name was already in the bank
         """
+        if filter_name.startswith('!'):
+            filter_name = filter_name[1:]
+
         if filter_name not in self.list_filters():
-            if filter_name.startswith('!'):
-                filter_name = filter_name[1:]
-            else:
-                filter_obj = Filter(filter_func, self.tree)
-                filter_obj.set_parameters(parameters)
+            filter_obj = Filter(filter_func, self.tree)
+            filter_obj.set_parameters(parameters)
             self.custom_filters[filter_name] = filter_obj
             return True
         else:
-- 
2.43.0


From 953dbfc2fb32abd4dd4509d723e337f112ea0c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:24 +0000
Subject: [PATCH 12/27] fix: run an action queued for a node exactly once,
 whatever its id is

Queued actions were stored among the callbacks of the view, so a node
whose id is the name of an event ('added') crashed the view. They were
also dropped only after they had been run: an action which made the view
add the node again was run again.
---
 liblarch/filteredtree.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 79c57e0..31c6db4 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -49,6 +49,8 @@ class FilteredTree(object):
         """
 
         self.cllbcks = {}
+        # Functions waiting for a node to be displayed, by its node_id
+        self.runonce_cllbcks = {}
 
         # Cache
         self.nodes = {}
@@ -90,9 +92,9 @@ class FilteredTree(object):
                 # it is essential to idle_add to avoid hard recursion
                 GObject.idle_add(func, param)
             else:
-                if node_id not in self.cllbcks:
-                    self.cllbcks[node_id] = []
-                self.cllbcks[node_id].append([func, node_id, param])
+                if node_id not in self.runonce_cllbcks:
+                    self.runonce_cllbcks[node_id] = []
+                self.runonce_cllbcks[node_id].append([func, node_id, param])
         else:
             self.cllbcks[event] = [func, node_id, param]
 
@@ -109,11 +111,9 @@ class FilteredTree(object):
         The runonce event is actually only run once, when a given task appears.
         """
         if event == 'added':
-            for func, nid, param in self.cllbcks.get(node_id, []):
+            for func, nid, param in self.runonce_cllbcks.pop(node_id, []):
                 if nid and self.is_displayed(nid):
                     func(param)
-                    if node_id in self.cllbcks:
-                        self.cllbcks.pop(node_id)
                 else:
                     raise Exception(
                         '{} is not displayed but {} was added'.format(
-- 
2.43.0


From ae23b4890fb5240f985c10eb872cb7b1bf07b9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:49 +0000
Subject: [PATCH 13/27] fix: carry out set_parent() as a single request

A refused move requested from another thread lost the current parents of
the node: detaching and attaching were separate requests.
---
 liblarch/tree.py     |  5 +++++
 liblarch/treenode.py | 37 ++++++++++++++++++++++---------------
 2 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 221de4f..0732701 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -94,6 +94,11 @@ class MainTree(object):
     def break_relationship(self, parent_id, child_id):
         self._queue.push(self._break_relationship, parent_id, child_id)
 
+    def request(self, func, *args):
+        """ Call the function when its turn comes: right now or, if this is
+        another thread, after the requests which are waiting """
+        self._queue.push(func, *args)
+
     def refresh_all(self):
         """ Refresh all nodes """
         for node_id in list(self.nodes.keys()):
diff --git a/liblarch/treenode.py b/liblarch/treenode.py
index c833e14..d2bd279 100644
--- a/liblarch/treenode.py
+++ b/liblarch/treenode.py
@@ -94,22 +94,29 @@ class _Node(object):
                     relationship for relationship in self.pending_relationships
                     if relationship[1] != self.get_id()]
                 self.pending_relationships.append((parent_id, self.get_id()))
-            elif not self.tree.has_node(parent_id):
-                for p in self.get_parents():
-                    self.tree.break_relationship(p, self.get_id())
-                self.tree.new_relationship(parent_id, self.get_id())
-                self.__forget_expected_parents(parent_id)
             else:
-                par = self.tree.get_node(parent_id)
-                if par.has_children_enabled():
-                    # First we add the new parent: if it is refused (circular
-                    # relationship), the current parents have to stay
-                    self.add_parent(parent_id)
-                    # Then we remove all the other parents
-                    for node_id in self.get_parents():
-                        if node_id != parent_id:
-                            self.remove_parent(node_id)
-                    self.__forget_expected_parents(parent_id)
+                # A single request: when it is processed later (because this
+                # is another thread), a refused parent must not cost the node
+                # its current parents
+                self.tree.request(self.__set_parent_in_tree, parent_id)
+
+    def __set_parent_in_tree(self, parent_id):
+        if not self.tree.has_node(parent_id):
+            for p in self.get_parents():
+                self.tree.break_relationship(p, self.get_id())
+            self.tree.new_relationship(parent_id, self.get_id())
+            self.__forget_expected_parents(parent_id)
+        else:
+            par = self.tree.get_node(parent_id)
+            if par.has_children_enabled():
+                # First we add the new parent: if it is refused (circular
+                # relationship), the current parents have to stay
+                self.add_parent(parent_id)
+                # Then we remove all the other parents
+                for node_id in self.get_parents():
+                    if node_id != parent_id:
+                        self.remove_parent(node_id)
+                self.__forget_expected_parents(parent_id)
 
     def __forget_expected_parents(self, parent_id):
         """ Drop relationships with all parents but parent_id which are
-- 
2.43.0


From 22273ae21b4ee283021017d6d773fe014cf306ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:54 +0000
Subject: [PATCH 14/27] fix: finish changing the links of a shown node before
 updating others

Updating a parent or child could lead back to a node whose links were only
half changed. When the filters changed their mind about several nodes at once,
it failed with KeyError or ValueError and left the view broken.
---
 liblarch/filteredtree.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 31c6db4..17e831b 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -200,22 +200,20 @@ class FilteredTree(object):
             for parent_id in remove_from:
                 self.send_remove_tree(node_id, parent_id)
                 self.nodes[parent_id]['children'].remove(node_id)
-                if direction == "both" or direction == "up":
-                    self.__update_node(parent_id, direction="up")
             # there might be some optimization here
             for parent_id in add_to:
                 if parent_id in self.nodes:
                     self.nodes[parent_id]['children'].append(node_id)
                     self.send_add_tree(node_id, parent_id)
-                    if direction == "both" or direction == "up":
-                        self.__update_node(parent_id, direction="up")
                 else:
                     completely_updated = False
                     raise Exception("We have a parent not in the ViewTree")
-            # We update all the other parents
+            # We update all the parents, old ones and new ones, when the node
+            # is at its place: updating them can lead back here
             if direction == "both" or direction == "up":
-                for parent_id in stay:
-                    self.__update_node(parent_id, direction="up")
+                for parents in (remove_from, add_to, stay):
+                    for parent_id in parents:
+                        self.__update_node(parent_id, direction="up")
             # We update the node itself
             # Why should we call the callback only for modify?
             if action == 'modified':
@@ -236,15 +234,18 @@ class FilteredTree(object):
             for child_id in children:
                 self.send_remove_tree(child_id, node_id)
                 self.nodes[child_id]['parents'].remove(node_id)
-                self.__update_node(child_id, direction="down")
 
             node = self.nodes.pop(node_id)
             for path in paths:
                 self.callback(action, node_id, path)
-
-            # Remove node from cache
             for parent_id in node['parents']:
                 self.nodes[parent_id]['children'].remove(node_id)
+
+            # Update the others only when the node is gone: updating them
+            # can lead back here
+            for child_id in children:
+                self.__update_node(child_id, direction="down")
+            for parent_id in node['parents']:
                 self.__update_node(parent_id, direction="up")
 
             # We update parents who are not displayed
-- 
2.43.0


From a36db14fcb1a76e568992a849bc0458b83e13fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:28 +0000
Subject: [PATCH 15/27] fix: put the shown children of a node below it when it
 appears

A node which is shown because of a new child was updated upwards only, so
its other children stayed where they were in the view.
---
 liblarch/filteredtree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 17e831b..5b1c1e0 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -223,7 +223,8 @@ class FilteredTree(object):
             # We update the children
             current_children = self.nodes[node_id]['children']
             new_children = self.__node_children(node_id)
-            if direction == "both" or direction == "down":
+            # (a node which has just appeared may have children on display)
+            if direction == "both" or direction == "down" or action == 'added':
                 for cid in new_children:
                     if cid not in current_children:
                         self.__update_node(cid, direction="down")
-- 
2.43.0


From 713721e8da6cc49e59178288cee72d2cd0f48d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:46 +0000
Subject: [PATCH 16/27] fix: node_nth_child(None, n) failed on filtered views

---
 liblarch/filteredtree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index 5b1c1e0..a5097a4 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -573,6 +573,8 @@ class FilteredTree(object):
             return len(self.nodes[node_id]['children'])
 
     def node_nth_child(self, node_id, n):
+        if node_id is None:
+            node_id = self.root_id
         return self.nodes[node_id]['children'][n]
 
     def node_parents(self, node_id):
-- 
2.43.0


From 5508406bacccb7f1c085e25f0e3da54313f3564f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:46 +0000
Subject: [PATCH 17/27] fix: get_node_for_path raised ValueError when the node
 is not in the tree

---
 liblarch/tree.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/liblarch/tree.py b/liblarch/tree.py
index 0732701..103c2a6 100644
--- a/liblarch/tree.py
+++ b/liblarch/tree.py
@@ -355,11 +355,10 @@ class MainTree(object):
         if not path or path == ():
             return None
         node_id = path[-1]
-        if path in self.get_paths_for_node(node_id):
+        if self.has_node(node_id) and path in self.get_paths_for_node(node_id):
             return node_id
         else:
             return None
-        return node_id
 
     def get_paths_for_node(self, node_id):
         """ Get all paths for node_id """
-- 
2.43.0


From 5115c00996c37da8e03b82a587da8ba80c43fc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:46 +0000
Subject: [PATCH 18/27] fix: a refused apply_filter() with reset had removed
 the other filters

---
 liblarch/filteredtree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index a5097a4..c8d9c76 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -610,9 +610,6 @@ class FilteredTree(object):
                 (performance optimization)
         """
         should_refilter = False
-        if reset:
-            self.applied_filters = []
-
         if parameters:
             filt = self.fbank.get_filter(filter_name)
             if filt:
@@ -622,6 +619,9 @@ class FilteredTree(object):
                 raise ValueError(
                     "No filter of name {} in the bank".format(filter_name))
 
+        if reset:
+            self.applied_filters = []
+
         if filter_name not in self.applied_filters:
             self.applied_filters.append(filter_name)
             should_refilter = True
-- 
2.43.0


From 1939e5b58665119ed813a8e623ac387e21fe1e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:21 +0000
Subject: [PATCH 19/27] fix: queue_action() crashed on the main view

---
 liblarch/viewtree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/liblarch/viewtree.py b/liblarch/viewtree.py
index dad50e7..5ec1cd9 100644
--- a/liblarch/viewtree.py
+++ b/liblarch/viewtree.py
@@ -80,6 +80,9 @@ class ViewTree(object):
                 functools.partial(self.__emit, 'node-children-reordered'))
 
     def queue_action(self, node_id, func, param=None):
+        if not self.__ft:
+            self.__ft = FilteredTree(
+                self.__maintree, self.__fbank, refresh=True)
         self.__ft.set_callback('runonce', func, node_id=node_id, param=param)
 
     def get_basetree(self):
-- 
2.43.0


From 15dcbbc7f54a9cd48e80cd011c0bfcc3065cd8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:21 +0000
Subject: [PATCH 20/27] fix: list_applied_filters() crashed on the main view

---
 liblarch/viewtree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liblarch/viewtree.py b/liblarch/viewtree.py
index 5ec1cd9..3325d4e 100644
--- a/liblarch/viewtree.py
+++ b/liblarch/viewtree.py
@@ -270,6 +270,8 @@ class ViewTree(object):
 
     # FILTERS #################################################################
     def list_applied_filters(self):
+        if self.static:
+            return []
         return self.__ft.list_applied_filters()
 
     def apply_filter(self, filter_name, parameters=None,
-- 
2.43.0


From 333d79d0f154ea7ae2df6d250b64ac6eda4ff061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:36 +0000
Subject: [PATCH 21/27] fix: a removed row's iter could be taken for another
 row of the node

---
 liblarch_gtk/treemodel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 8481752..3257bba 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -159,6 +159,8 @@ class TreeModel(Gtk.TreeStore):
         assert actual_node_id == node_id
         self.remove(it)
         self.cache_position.pop(path)
+        # GTK may use the same iter for another row of this node later
+        self.cache_paths.pop(path)
 
     def update_task(self, node_id, path):
         """ Update instance of node by rebuilding the row.
-- 
2.43.0


From c095fb848cf5a780edc1e6a3f313f7c02dcff66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:05 +0000
Subject: [PATCH 22/27] fix: an action which returns a true value was run again
 and again by the main loop

---
 liblarch/filteredtree.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/liblarch/filteredtree.py b/liblarch/filteredtree.py
index c8d9c76..0b25b6f 100644
--- a/liblarch/filteredtree.py
+++ b/liblarch/filteredtree.py
@@ -90,7 +90,7 @@ class FilteredTree(object):
                 raise Exception('runonce callback should come with a node_id')
             if self.is_displayed(node_id):
                 # it is essential to idle_add to avoid hard recursion
-                GObject.idle_add(func, param)
+                GObject.idle_add(self.__run_once, func, param)
             else:
                 if node_id not in self.runonce_cllbcks:
                     self.runonce_cllbcks[node_id] = []
@@ -98,6 +98,12 @@ class FilteredTree(object):
         else:
             self.cllbcks[event] = [func, node_id, param]
 
+    def __run_once(self, func, param):
+        """ Run a queued action from the main loop, which would call it again
+        and again as long as it returns a true value """
+        func(param)
+        return False
+
     def callback(self, event, node_id, path, neworder=None):
         """ Run a callback.
 
-- 
2.43.0


From 353fcaccffe9c920fe79e9bed95d720a0871eb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:34 +0000
Subject: [PATCH 23/27] fix: a widget shown again added every row a second time

---
 liblarch_gtk/treemodel.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/treemodel.py b/liblarch_gtk/treemodel.py
index 3257bba..3ca44d9 100644
--- a/liblarch_gtk/treemodel.py
+++ b/liblarch_gtk/treemodel.py
@@ -37,6 +37,7 @@ class TreeModel(Gtk.TreeStore):
         self.cache_paths = {}
         self.cache_position = {}
         self.tree = tree
+        self.connected = False
 
     def set_column_function(self, column_num, column_func):
         """ Replace function for generating certain column.
@@ -54,7 +55,12 @@ class TreeModel(Gtk.TreeStore):
         """ Register "signals", callbacks from liblarch.
 
         Also asks for the current status by providing add_task callback.
-        We are able to connect to liblarch tree on the fly. """
+        We are able to connect to liblarch tree on the fly. Connecting again
+        (a widget is shown for the second time) has no effect. """
+
+        if self.connected:
+            return
+        self.connected = True
 
         self.tree.register_cllbck('node-added-inview', self.add_task)
         self.tree.register_cllbck('node-deleted-inview', self.remove_task)
-- 
2.43.0


From b8ef4b0f38bd533787337be0b93804da497f18b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:45 +0000
Subject: [PATCH 24/27] fix: dragging a node along with its child moved another
 node

---
 liblarch_gtk/__init__.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 927333e..9738882 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -515,11 +515,15 @@ class TreeView(Gtk.TreeView):
         else:
             iters = data.decode().split(',')
 
-        dragged_iters = []
+        # Moving a node removes rows and adds others, and GTK may use the iter
+        # of a removed row for a new one. Remember which nodes were dragged.
+        dragged_rows = []
         for iter in iters:
             if info == 0:
                 try:
-                    dragged_iters.append(model.get_iter_from_string(iter))
+                    dragged_iter = model.get_iter_from_string(iter)
+                    dragged_rows.append(
+                        (dragged_iter, model.get_value(dragged_iter, 0)))
                 except ValueError:
                     # I hate to silently fail but we have no choice.
                     # It means that the iter is not good.
@@ -531,12 +535,14 @@ class TreeView(Gtk.TreeView):
             elif info in self.dnd_external_targets and destination_tid:
                 f = self.dnd_external_targets[info][1]
                 src_model = Gtk.drag_get_source_widget(context).get_model()
-                dragged_iters.append(src_model.get_iter_from_string(iter))
+                dragged_iter = src_model.get_iter_from_string(iter)
+                dragged_rows.append(
+                    (dragged_iter, src_model.get_value(dragged_iter, 0)))
 
-        for dragged_iter in dragged_iters:
+        for dragged_iter, dragged_tid in dragged_rows:
             if info == 0:
-                if dragged_iter and model.iter_is_valid(dragged_iter):
-                    dragged_tid = model.get_value(dragged_iter, 0)
+                if model.iter_is_valid(dragged_iter) and \
+                        model.get_value(dragged_iter, 0) == dragged_tid:
                     try:
                         tree.move_node(
                             dragged_tid, new_parent_id=destination_tid)
@@ -545,8 +551,7 @@ class TreeView(Gtk.TreeView):
 
             # Handle inter-widget Drag'n'Drop again (like in the previous loop)
             elif info in self.dnd_external_targets and destination_tid:
-                source = src_model.get_value(dragged_iter, 0)
-                f(source, destination_tid)
+                f(dragged_tid, destination_tid)
 
     # Separators support ##############################################
     def _separator_func(self, model, itera, user_data=None):
-- 
2.43.0


From 105ca1aa191ced86973c93329d6753437105610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:54 +0000
Subject: [PATCH 25/27] fix: dropping an empty selection from another widget
 raised ValueError

---
 liblarch_gtk/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 9738882..64b548a 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -510,7 +510,7 @@ class TreeView(Gtk.TreeView):
         # If there is no selected task (empty selection.data),
         # explicitly skip handling it (set to empty list)
         data = selection.get_data()
-        if data == '':
+        if not data:
             iters = []
         else:
             iters = data.decode().split(',')
-- 
2.43.0


From 9e9917841143cef133f7b0c6c614c77ed2b1832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 26/27] fix: an expanded node was remembered as collapsed

---
 liblarch_gtk/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index 64b548a..cc44df4 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -263,7 +263,11 @@ class TreeView(Gtk.TreeView):
             target_path = self.basetreemodel.get_path(iter)
             if self.basetreemodel.get_value(iter, 0) == node_id:
                 collapsing_method(target_path)
-                self.collapsed_paths.append(path)
+                if collapsing_method == self.expand_one_row:
+                    self.collapsed_paths = [
+                        c for c in self.collapsed_paths if c[-1] != node_id]
+                else:
+                    self.collapsed_paths.append(path)
                 schedule_next = False
 
         if schedule_next:
-- 
2.43.0


From 402cf46e28078ca4186639c7867ddd341045d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:13 +0000
Subject: [PATCH 27/27] fix: a first column which is not a new one was never
 shown

---
 liblarch_gtk/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/liblarch_gtk/__init__.py b/liblarch_gtk/__init__.py
index cc44df4..2d7012d 100644
--- a/liblarch_gtk/__init__.py
+++ b/liblarch_gtk/__init__.py
@@ -117,9 +117,6 @@ class TreeView(Gtk.TreeView):
 
         types = []
         sorting_func = []
-        # Build the first column if user starts with new_colum=False
-        col = Gtk.TreeViewColumn()
-
         # Build columns according to the order
         for col_num, (order_num, col_name) in enumerate(
                 sorted(self.order_of_column), 1):
@@ -138,7 +135,8 @@ class TreeView(Gtk.TreeView):
 
             # If new_colum=False, do not create new column, use the previous
             # one. It will create columns without borders.
-            if desc.get('new_column', True):
+            # The first column has no previous one.
+            if desc.get('new_column', True) or col_num == 1:
                 col = Gtk.TreeViewColumn()
                 newcol = True
             else:
-- 
2.43.0

