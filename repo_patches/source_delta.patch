From 752a225f5df8cee7ec0225bc1dec72f3ccf18bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:34 +0000
Subject: [PATCH 01/31] fix: SuffixAliaser.unalias with an empty suffix

The slice [:-0] cut the whole key away, so a suffix aliaser without suffix
(and a PrefixSuffixAliaser with only a prefix) unaliased every key to ''.
---
 src/node/behaviors/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/alias.py b/src/node/behaviors/alias.py
index cfbcddc..0dcb1f5 100644
--- a/src/node/behaviors/alias.py
+++ b/src/node/behaviors/alias.py
@@ -86,7 +86,7 @@ class SuffixAliaser(object):
                 suffixed_key,
                 suffix
             ))
-        return suffixed_key[:-len(suffix)]
+        return suffixed_key[:len(suffixed_key) - len(suffix)]
 
 
 @implementer(IAliaser)
-- 
2.43.0


From 7c99a3afb4c404eae41d3369679b7d67549a7be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 02/31] fix: create the lock of a tree only once

Two threads using TreeLock on the same tree for the first time could each
create a lock and both enter the locked section.
---
 src/node/locking.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/node/locking.py b/src/node/locking.py
index c6557a0..725180c 100644
--- a/src/node/locking.py
+++ b/src/node/locking.py
@@ -1,14 +1,22 @@
 # -*- coding: utf-8 -*-
+from threading import Lock
 from threading import RLock
 
 
+# guards creation of tree locks
+_create_lock = Lock()
+
+
 class TreeLock(object):
 
     def __init__(self, node):
         root = node.root
         self.lock = getattr(root, '_treelock', None)
         if self.lock is None:
-            self.lock = root._treelock = RLock()
+            with _create_lock:
+                self.lock = getattr(root, '_treelock', None)
+                if self.lock is None:
+                    self.lock = root._treelock = RLock()
 
     def acquire(self):
         self.lock.acquire()
-- 
2.43.0


From 3e8745a7177fc050d9058c3041a13abead3f1556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:03 +0000
Subject: [PATCH 03/31] fix: initialize thread local data in every thread

Event dispatching, event suppression and fallback lookups raised
AttributeError in every thread but the one which imported the modules.
---
 src/node/behaviors/events.py   | 20 +++++++++++++++-----
 src/node/behaviors/fallback.py |  7 +++++--
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 5cfe9fa..1f4602d 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -37,6 +37,13 @@ def event_dispatcher_metclass_hook(cls, name, bases, dct):
 ALL_EVENTS = object()
 
 
+class _suppress_data(threading.local):
+
+    def __init__(self):
+        self.suppress = 0
+        self.events = list()
+
+
 class suppress_events(object):
     """Context manager to suppress event notification.
 
@@ -61,9 +68,7 @@ class suppress_events(object):
         with suppress_events(['event_1', 'event_2']):
             pass  # do something
     """
-    data = threading.local()
-    data.suppress = 0
-    data.events = list()
+    data = _suppress_data()
 
     def __init__(self, events=ALL_EVENTS):
         type_ = type(events)
@@ -88,8 +93,13 @@ class UnknownEvent(ValueError):
     """
 
 
-_attribute_subscribers = threading.local()
-_attribute_subscribers.subscribers = list()
+class _attribute_subscribers_data(threading.local):
+
+    def __init__(self):
+        self.subscribers = list()
+
+
+_attribute_subscribers = _attribute_subscribers_data()
 
 
 @contextmanager
diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index 9d6562a..a643ec2 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -10,9 +10,12 @@ import threading
 _marker = dict()
 
 
+class _processing_data(threading.local):
+    processing = -1
+
+
 class fallback_processing(object):
-    data = threading.local()
-    data.processing = -1
+    data = _processing_data()
 
     def __enter__(self):
         self.data.processing += 1
-- 
2.43.0


From 5f670aeaadbf973c1145c8d9ade376650de9b565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 04/31] fix: suppress events on entering the block

Events were registered for suppression when the context manager was created,
so one which was never entered suppressed them in later blocks for good, and
entering it in another thread failed on exit.
---
 src/node/behaviors/events.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 1f4602d..36f0ea5 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -74,11 +74,10 @@ class suppress_events(object):
         type_ = type(events)
         if type_ not in (list, tuple):
             events = [events]
-        for event in events:
-            self.data.events.append(event)
-        self.events = events
+        self.events = tuple(events)
 
     def __enter__(self):
+        self.data.events.extend(self.events)
         self.data.suppress += 1
         return self.data.suppress
 
-- 
2.43.0


From 6a75b0a11e4ea678a93d5fa6f418d73383242e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 05/31] fix: failing detach left lifecycle events suppressed

After detaching a missing key no further event was announced for the node
and its attributes.
---
 src/node/behaviors/lifecycle.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/lifecycle.py b/src/node/behaviors/lifecycle.py
index a6e6209..512b53f 100644
--- a/src/node/behaviors/lifecycle.py
+++ b/src/node/behaviors/lifecycle.py
@@ -50,9 +50,12 @@ class Lifecycle(Behavior):
 
     @plumb
     def detach(_next, self, key):
+        notify_suppress = self._notify_suppress
         self._notify_suppress = True
-        node = _next(self, key)
-        self._notify_suppress = False
+        try:
+            node = _next(self, key)
+        finally:
+            self._notify_suppress = notify_suppress
         objectEventNotify(self.events['detached'](node, oldParent=self,
                                                   oldName=key))
         return node
-- 
2.43.0


From 6ad2348643a80b39e707f197820f3f4a3976c363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:12 +0000
Subject: [PATCH 06/31] fix: revert adoption on every exception

A NotImplementedError, TypeError and the like raised while setting a child
left the node with name and parent of a container it is not contained in.
---
 src/node/behaviors/common.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 02e4b56..2be05fb 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -38,8 +38,7 @@ class Adopt(Behavior):
         val.__parent__ = self
         try:
             _next(self, key, val)
-        except (AttributeError, KeyError, ValueError):
-            # XXX: In what other cases do we want to revert adoption?
+        except BaseException:
             val.__name__ = old_name
             val.__parent__ = old_parent
             raise
-- 
2.43.0


From 6aa1f564e1548b361a8e457f56d09b674e95c73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:30 +0000
Subject: [PATCH 07/31] fix: keep declared events on the declaring class

An event attribute on a subclass was added to the event list of the base
class, hence made it known there and on all other subclasses, while an event
list on a subclass hid the events of its base classes.
---
 src/node/behaviors/events.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 36f0ea5..0a403b9 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -24,9 +24,13 @@ def event_dispatcher_metclass_hook(cls, name, bases, dct):
     """
     if not IEvents.implementedBy(cls):
         return
-    if not hasattr(cls, '__events__'):
-        cls.__events__ = list()
-    events = cls.__events__
+    # collect events of base classes without modifying them
+    events = list()
+    for base in cls.__mro__:
+        for event in base.__dict__.get('__events__', ()):
+            if event not in events:
+                events.append(event)
+    cls.__events__ = events
     for attr, val in dct.items():
         if isinstance(val, EventAttribute):
             if attr not in events:
-- 
2.43.0


From f534118985d06470cd3541f8dde00a72993b5d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:33 +0000
Subject: [PATCH 08/31] fix: do not skip subscribers if one unbinds itself

A subscriber which unbound itself while being called caused the next bound
subscriber not to be called.
---
 src/node/behaviors/events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 0a403b9..0da03bd 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -317,5 +317,6 @@ class Events(Behavior):
                 return
         for subscriber in attribute_subscribers:
             subscriber(self, *args, **kw)
-        for subscriber in self.__subscribers__.get(event, list()):
+        # subscribers may bind or unbind while being called
+        for subscriber in list(self.__subscribers__.get(event, list())):
             subscriber(*args, **kw)
-- 
2.43.0


From 18b2895f6c811d21cac8b7d8f5305355cb56263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:36 +0000
Subject: [PATCH 09/31] fix: Reference.uuid with an uuid of integer value 0

The node was indexed under None and not found by its uuid.
---
 src/node/behaviors/reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 5545b7b..4c8c6b7 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -73,11 +73,11 @@ class Reference(Behavior):
     @override
     @uuid.setter
     def uuid(self, uuid):
-        iuuid = uuid is not None and int(uuid) or None
+        iuuid = int(uuid) if uuid is not None else None
         if iuuid in self._index \
                 and self._index[iuuid] is not self:
             raise ValueError('Given uuid was already used for another Node')
-        siuuid = self._uuid is not None and int(self._uuid) or None
+        siuuid = int(self._uuid) if self._uuid is not None else None
         if siuuid in self._index:
             del self._index[siuuid]
         self._index[iuuid] = self
-- 
2.43.0


From 308e44d0c53d6f21a1fee9e12a61bc6a722c5438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 10/31] fix: keep the index of referencing nodes in sync with
 the tree

Descendants of an added subtree kept the index the subtree had before, so they
and whatever was added below them were not found, and deleting the subtree
raised KeyError. Replaced children stayed in the index. Deleted nodes kept the
index of the tree, so adding them again failed or left them out of the index.
Childless nodes were not checked for duplicate uuids. A failing assignment or
deletion changed the index. Nodes without reference support and non node
values could not be added respectively detached.
---
 src/node/behaviors/reference.py | 59 ++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 4c8c6b7..9e3e2b8 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -1,5 +1,4 @@
 # -*- coding: utf-8 -*-
-from node.interfaces import INode
 from node.interfaces import IReference
 from plumber import Behavior
 from plumber import default
@@ -38,33 +37,28 @@ class Reference(Behavior):
 
     @plumb
     def __setitem__(_next, self, key, val):
-        if INode.providedBy(val):
-            try:
-                next(val.iterkeys())
-                keys = set(self._index.keys())
-                if keys.intersection(val._index.keys()):
+        reference = IReference.providedBy(val)
+        if reference:
+            for iuuid in val._index:
+                if iuuid in self._index:
                     raise ValueError('Node with uuid already exists')
-            except StopIteration:
-                pass
-            self._index.update(val._index)
-            val._index = self._index
+        replaced = self._replaced(key)
         _next(self, key, val)
+        if replaced is not val and hasattr(replaced, '_to_delete'):
+            self._release(replaced._to_delete())
+        if reference:
+            index = val._index
+            self._index.update(index)
+            for node in index.values():
+                node._index = self._index
 
     @plumb
     def __delitem__(_next, self, key):
         # fail immediately if key does not exist
         todel = self[key]
-        if hasattr(todel, '_to_delete'):
-            for iuuid in todel._to_delete():
-                del self._index[iuuid]
+        iuuids = todel._to_delete() if hasattr(todel, '_to_delete') else []
         _next(self, key)
-
-    @plumb
-    def detach(_next, self, key):
-        node = _next(self, key)
-        node._index = {int(node.uuid): node}
-        node._index_nodes()
-        return node
+        self._release(iuuids)
 
     @property
     def uuid(self):
@@ -105,13 +99,18 @@ class Reference(Behavior):
         return todel
 
     @default
-    def _index_nodes(self):
-        for node in self.values():
-            try:
-                uuid = int(node.uuid)
-            except AttributeError:
-                # non-Node values are a dead end, no magic for them
-                continue
-            self._index[uuid] = node
-            node._index = self._index
-            node._index_nodes()
+    def _replaced(self, key):
+        # Child which gets replaced when setting key. Read from storage, other
+        # behaviors might create a missing child on access.
+        try:
+            return self.storage[key]
+        except (AttributeError, KeyError):
+            return None
+
+    @default
+    def _release(self, iuuids):
+        # Move nodes no longer contained in tree to an index of their own.
+        index = dict()
+        for iuuid in iuuids:
+            node = index[iuuid] = self._index.pop(iuuid)
+            node._index = index
-- 
2.43.0


From c32b8ace54821ee3d54b3bad4e635408474491a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 11/31] fix: raise AttributeError for missing child in
 GetattrChildren

KeyError from __getattr__ broke hasattr, getattr with default, copying and
locking of nodes using the behavior.
---
 src/node/behaviors/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 2be05fb..2bd7a9a 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -133,7 +133,10 @@ class GetattrChildren(Behavior):
         """For new-style classes __getattr__ is called, if the
         attribute could not be found via MRO
         """
-        return self[name]
+        try:
+            return self[name]
+        except KeyError:
+            raise AttributeError(name)
 
 
 @implementer(INodeChildValidate)
-- 
2.43.0


From 62f68eebe54cc7f71278836d2d6a40261888f689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:02 +0000
Subject: [PATCH 12/31] fix: refused insertions change nothing in Order

Inserting a node under an existing name broke the linked list of the storage,
which lost children or made iteration endless. A node refused by another
behavior when being set stayed in the storage. Inserting an unnamed node into
an empty container was not refused.
---
 src/node/behaviors/order.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 972cf2e..6dee74a 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -14,6 +14,7 @@ class Order(Behavior):
 
     @override
     def insertfirst(self, newnode):
+        self._validateinsertion(newnode)
         keys = self.keys()
         if not keys:
             self[newnode.name] = newnode
@@ -23,6 +24,7 @@ class Order(Behavior):
 
     @override
     def insertlast(self, newnode):
+        self._validateinsertion(newnode)
         keys = self.keys()
         if not keys:
             self[newnode.name] = newnode
@@ -37,7 +39,7 @@ class Order(Behavior):
             self.storage.insertbefore(refnode.name, newnode.name, newnode)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
-        self[newnode.name] = newnode
+        self._adoptinserted(newnode)
 
     @override
     def insertafter(self, newnode, refnode):
@@ -46,7 +48,7 @@ class Order(Behavior):
             self.storage.insertafter(refnode.name, newnode.name, newnode)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
-        self[newnode.name] = newnode
+        self._adoptinserted(newnode)
 
     @override
     def _validateinsertion(self, node):
@@ -57,3 +59,16 @@ class Order(Behavior):
         if hasattr(self, 'node'):
             if self.node(node.uuid) is not None:
                 raise KeyError('Given node already contained in tree.')
+        if node.name in self.storage:
+            raise KeyError('Child with name of given node already exists.')
+
+    @override
+    def _adoptinserted(self, node):
+        # node is already stored at the desired position, undo if setting it
+        # fails
+        name = node.name
+        try:
+            self[name] = node
+        except BaseException:
+            del self.storage[name]
+            raise
-- 
2.43.0


From 499705f0ae0cd07281381f4ecc2136079b0775f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:41 +0000
Subject: [PATCH 13/31] fix: fallback lookup with a missing fallback child

If the configured fallback child did not exist, the lookup ended with a
KeyError for the fallback key instead of trying fallbacks farther up.
---
 src/node/behaviors/fallback.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index a643ec2..2e71357 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -34,7 +34,11 @@ def _to_root(node, path, visited):
     if not getattr(parent, 'fallback_key', _marker) or node in visited:
         return _to_root(parent, path=path, visited=visited)
     visited.update({node})
-    return _to_leaf(parent[parent.fallback_key], path=path, visited=visited)
+    try:
+        fallback = parent[parent.fallback_key]
+    except KeyError:
+        return _to_root(parent, path=path, visited=visited)
+    return _to_leaf(fallback, path=path, visited=visited)
 
 
 def _to_leaf(node, path, visited):
-- 
2.43.0


From 461721f214fdc21b37da65638e9a9f5261f7aca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 14/31] fix: deepcopy of UUID aware nodes with non node
 children

Renewing uuids recursively failed on values which are no nodes.
---
 src/node/behaviors/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 2bd7a9a..56ab1e2 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -208,6 +208,6 @@ class UUIDAware(Behavior):
         if IUUIDAware.providedBy(node):
             if override or not node.uuid:
                 node.uuid = self.uuid_factory()
-        if recursiv:
+        if recursiv and INode.providedBy(node):
             for child in node.values():
                 self.set_uuid_for(child, override, recursiv)
-- 
2.43.0


From 94b44fad968f7deedae54d6175b686f06bfa1115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 15/31] fix: use empty dict aliaser for aliasing

DictAliaser is a dictionary, thus false if empty, and the Alias behavior
passed all keys unchanged instead of refusing and hiding them.
---
 src/node/behaviors/alias.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/alias.py b/src/node/behaviors/alias.py
index 0dcb1f5..5031911 100644
--- a/src/node/behaviors/alias.py
+++ b/src/node/behaviors/alias.py
@@ -126,7 +126,7 @@ class Alias(Behavior):
 
     @plumb
     def __getitem__(_next, self, key):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -137,7 +137,7 @@ class Alias(Behavior):
 
     @plumb
     def __setitem__(_next, self, key, val):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -148,7 +148,7 @@ class Alias(Behavior):
 
     @plumb
     def __delitem__(_next, self, key):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -161,7 +161,7 @@ class Alias(Behavior):
     def __iter__(_next, self):
         for key in _next(self):
             try:
-                if self.aliaser:
+                if self.aliaser is not None:
                     yield self.aliaser.alias(key)
                 else:
                     yield key
-- 
2.43.0


From 48d645757ce002e151d0d9fd46d24a20f847bc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 16/31] fix: copies of UNSET are UNSET

Deep copying a node created new objects from UNSET values which were neither
identical nor equal to UNSET.
---
 src/node/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/node/utils.py b/src/node/utils.py
index d720ba6..38fd67c 100644
--- a/src/node/utils.py
+++ b/src/node/utils.py
@@ -33,6 +33,10 @@ class Unset(object):
     def __repr__(self):
         return '<UNSET>'
 
+    def __reduce__(self):
+        # copying and pickling gives back the one object
+        return 'UNSET'
+
 
 UNSET = Unset()
 
-- 
2.43.0


From 7c102ea7e8e376141efb704102b437f21c0b9f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:05 +0000
Subject: [PATCH 17/31] fix: resolve dotted names in modules not imported yet

NodeDecoder.resolve imported the top level package only and failed for objects
in submodules which were not imported before, and for objects in modules which
are shadowed by an attribute of their package.
---
 src/node/serializer.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index ea27ef4..3b61b42 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -10,6 +10,7 @@ from node.utils import UNSET
 from odict import odict
 from zope.interface import Interface
 import json
+import sys
 import uuid
 
 
@@ -145,8 +146,19 @@ class NodeDecoder(object):
         """Resolve dotted name to object.
         """
         components = name.split('.')
-        ob = __import__(components[0])
-        for comp in components[1:]:
+        # import deepest module in dotted name
+        count = max(len(components) - 1, 1)
+        while True:
+            module = '.'.join(components[:count])
+            try:
+                __import__(module)
+                break
+            except ImportError:
+                if count == 1:
+                    raise
+                count -= 1
+        ob = sys.modules[module]
+        for comp in components[count:]:
             ob = getattr(ob, comp)
         return ob
 
-- 
2.43.0


From 52ea6b0d74bc9e3deb3875af3746ca5fd2e0cc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 18/31] fix: read context item by attribute access

Reading attribute context returned the wrapped context instead of the item
with that key.
---
 src/node/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/node/utils.py b/src/node/utils.py
index 38fd67c..58ecdb7 100644
--- a/src/node/utils.py
+++ b/src/node/utils.py
@@ -108,6 +108,12 @@ class AttributeAccess(object):
     def __init__(self, context):
         object.__setattr__(self, 'context', context)
 
+    def __getattribute__(self, name):
+        if name == 'context':
+            # continue with ``__getattr__``
+            raise AttributeError(name)
+        return object.__getattribute__(self, name)
+
     def __getattr__(self, name):
         context = object.__getattribute__(self, 'context')
         try:
-- 
2.43.0


From be2e1d50fa42b18e9bc4f90e34928a28526a8319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:53 +0000
Subject: [PATCH 19/31] fix: do not share children storage with shallow copies

Setting or deleting a child on a copy changed the original node and vice
versa.
---
 src/node/behaviors/storage.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/node/behaviors/storage.py b/src/node/behaviors/storage.py
index e8f3ec1..ffcb7cf 100644
--- a/src/node/behaviors/storage.py
+++ b/src/node/behaviors/storage.py
@@ -7,6 +7,7 @@ from plumber import Behavior
 from plumber import default
 from plumber import override
 from zope.interface import implementer
+import copy
 
 
 @implementer(IStorage)
@@ -34,6 +35,15 @@ class Storage(Behavior):
     def __iter__(self):
         return self.storage.__iter__()
 
+    @default
+    def __copy__(self):
+        # do not share default storage with copy
+        new = self.__class__.__new__(self.__class__)
+        new.__dict__.update(self.__dict__)
+        if '_storage' in new.__dict__:
+            new.__dict__['_storage'] = copy.copy(self._storage)
+        return new
+
 
 class DictStorage(Storage):
 
-- 
2.43.0


From 5b414a2c38e0de0525c087af6a7c8107000a7956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 20/31] fix: copy nodes whose tree lock was used

Locks cannot be deep copied, and a shallow copy shared the lock of the tree of
the original node.
---
 src/node/behaviors/nodify.py  | 7 +++++++
 src/node/behaviors/storage.py | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/nodify.py b/src/node/behaviors/nodify.py
index ced1069..a98e6b1 100644
--- a/src/node/behaviors/nodify.py
+++ b/src/node/behaviors/nodify.py
@@ -127,6 +127,13 @@ class Nodify(FullMapping):
     def printtree(self):
         print(self.treerepr())                               # pragma: no cover
 
+    @override
+    def __getstate__(self):
+        # copies get a tree lock of their own, locks cannot be copied
+        state = self.__dict__.copy()
+        state.pop('_treelock', None)
+        return state
+
     @default
     def __nonzero__(self):
         return True
diff --git a/src/node/behaviors/storage.py b/src/node/behaviors/storage.py
index ffcb7cf..5da6b30 100644
--- a/src/node/behaviors/storage.py
+++ b/src/node/behaviors/storage.py
@@ -39,7 +39,7 @@ class Storage(Behavior):
     def __copy__(self):
         # do not share default storage with copy
         new = self.__class__.__new__(self.__class__)
-        new.__dict__.update(self.__dict__)
+        new.__dict__.update(self.__reduce_ex__(2)[2] or dict())
         if '_storage' in new.__dict__:
             new.__dict__['_storage'] = copy.copy(self._storage)
         return new
-- 
2.43.0


From 0994113ca4889e9390755d36a5e4ff32e165a8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:14 +0000
Subject: [PATCH 21/31] fix: insert nodes without uuid in referencing nodes

Order asked every new node for its uuid if mixed with Reference, so nodes
which can be set could not be inserted.
---
 src/node/behaviors/order.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 6dee74a..3d59927 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -56,7 +56,7 @@ class Order(Behavior):
             raise ValueError('Given node has no __name__ set.')
         # case if Reference behavior is mixed in
         # XXX: move out of here
-        if hasattr(self, 'node'):
+        if hasattr(self, 'node') and hasattr(node, 'uuid'):
             if self.node(node.uuid) is not None:
                 raise KeyError('Given node already contained in tree.')
         if node.name in self.storage:
-- 
2.43.0


From c419f47d5cc0b79a2e5f3389e3f6087b973c487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:14 +0000
Subject: [PATCH 22/31] fix: invalidate all children if cache is not empty

Cache.invalidate without key passed the last cached key on to the next
invalidate, so only that child was invalidated.
---
 src/node/behaviors/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/cache.py b/src/node/behaviors/cache.py
index 4c7eeca..1dbab06 100644
--- a/src/node/behaviors/cache.py
+++ b/src/node/behaviors/cache.py
@@ -86,8 +86,8 @@ class Cache(Behavior):
             except KeyError:
                 pass
         else:
-            for key in _keys(cache):
-                del cache[key]
+            for cached_key in _keys(cache):
+                del cache[cached_key]
         _next(self, key=key)
 
     @plumb
-- 
2.43.0


From 1b17b8311668e69bf3e6338a2b5b638f632e6d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 23/31] fix: serialize nodes with attribute access for attrs

---
 src/node/serializer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index 3b61b42..c7210b4 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -6,6 +6,7 @@ from node.compat import IS_PY2
 from node.compat import STR_TYPE
 from node.interfaces import IAttributes
 from node.interfaces import INode
+from node.utils import AttributeAccess
 from node.utils import UNSET
 from odict import odict
 from zope.interface import Interface
@@ -238,7 +239,11 @@ def deserialize_node(decoder, node, data):
 @serializer(IAttributes)
 def serialize_node_attributes(encoder, node, data):
     attrs = data.setdefault('attrs', dict())
-    for name, child in node.attrs.items():
+    node_attrs = node.attrs
+    if isinstance(node_attrs, AttributeAccess):
+        # attribute access wraps the mapping
+        node_attrs = object.__getattribute__(node_attrs, 'context')
+    for name, child in node_attrs.items():
         attrs[name] = encoder.default(child)
 
 
-- 
2.43.0


From 123eb4fe871a7c89c525df340d13a4c40909d4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 24/31] fix: do not share cache with shallow copies

---
 src/node/behaviors/storage.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/node/behaviors/storage.py b/src/node/behaviors/storage.py
index 5da6b30..444f47b 100644
--- a/src/node/behaviors/storage.py
+++ b/src/node/behaviors/storage.py
@@ -37,11 +37,12 @@ class Storage(Behavior):
 
     @default
     def __copy__(self):
-        # do not share default storage with copy
+        # do not share default storage and default cache with copy
         new = self.__class__.__new__(self.__class__)
         new.__dict__.update(self.__reduce_ex__(2)[2] or dict())
-        if '_storage' in new.__dict__:
-            new.__dict__['_storage'] = copy.copy(self._storage)
+        for name in ('_storage', '_cache'):
+            if name in new.__dict__:
+                new.__dict__[name] = copy.copy(new.__dict__[name])
         return new
 
 
-- 
2.43.0


From a0e5b3364e2f0c02897bdb4c094e42399beed391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 25/31] fix: acquire beyond falsy ancestors

---
 src/node/behaviors/nodify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/nodify.py b/src/node/behaviors/nodify.py
index a98e6b1..8646c21 100644
--- a/src/node/behaviors/nodify.py
+++ b/src/node/behaviors/nodify.py
@@ -71,7 +71,7 @@ class Nodify(FullMapping):
     @override
     def acquire(self, interface):
         node = self.parent
-        while node:
+        while node is not None:
             if (IInterface.providedBy(interface) and
                     interface.providedBy(node)) or \
                     isinstance(node, interface):
-- 
2.43.0


From 1276c4f880a688e28632552b38c8865b6636a19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 26/31] fix: make node.events importable on its own

---
 src/node/events.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/node/events.py b/src/node/events.py
index af70eb5..44a2040 100644
--- a/src/node/events.py
+++ b/src/node/events.py
@@ -1,8 +1,4 @@
 # -*- coding: utf-8 -*-
-from node.behaviors import EventAttribute
-from node.behaviors import Events
-from node.behaviors import UnknownEvent
-from node.behaviors import suppress_events
 from node.interfaces import INodeAddedEvent
 from node.interfaces import INodeCreatedEvent
 from node.interfaces import INodeDetachedEvent
@@ -49,6 +45,13 @@ class NodeDetachedEvent(ObjectRemovedEvent):
 # Event dispatcher using IEvents plumbing behavior
 ###############################################################################
 
+# node.behaviors needs the lifecycle events above
+from node.behaviors import EventAttribute  # noqa
+from node.behaviors import Events  # noqa
+from node.behaviors import UnknownEvent  # noqa
+from node.behaviors import suppress_events  # noqa
+
+
 @plumbing(Events)
 class EventDispatcher(object):
     """Object providing event dispatching.
-- 
2.43.0


From d8700a8d1feb052d7269267d58f8b0c4e512cc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:25 +0000
Subject: [PATCH 27/31] fix: decode byte strings in UnicodeAware on Python 3

---
 src/node/behaviors/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 56ab1e2..c3067d9 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -159,21 +159,21 @@ class UnicodeAware(Behavior):
 
     @plumb
     def __delitem__(_next, self, key):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
         _next(self, key)
 
     @plumb
     def __getitem__(_next, self, key):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
         return _next(self, key)
 
     @plumb
     def __setitem__(_next, self, key, val):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
-        if isinstance(val, str):
+        if isinstance(val, bytes):
             val = decode(val)
         return _next(self, key, val)
 
-- 
2.43.0


From 3d0eaa5535da1cf71921465649d3d8b838d9ab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:33 +0000
Subject: [PATCH 28/31] fix: nodes with events accept constructor arguments

---
 src/node/behaviors/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 0da03bd..cef7195 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -249,7 +249,7 @@ class Events(Behavior):
     def __new__(cls, *args, **kw):
         """Set ``__events__`` and ``__subscribers__`` attributes on instance.
         """
-        inst = super(type, cls).__new__(cls, *args, **kw)
+        inst = super(type, cls).__new__(cls)
         inst.__events__ = list()
         inst.__subscribers__ = dict()
         return inst
-- 
2.43.0


From 389836edcb0bfe5828c624c7b454f210d814c6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 29/31] fix: deleting a cached child does not leave it in the
 cache when read meanwhile

---
 src/node/behaviors/cache.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/cache.py b/src/node/behaviors/cache.py
index 1dbab06..8163e98 100644
--- a/src/node/behaviors/cache.py
+++ b/src/node/behaviors/cache.py
@@ -110,10 +110,13 @@ class Cache(Behavior):
     @plumb
     def __delitem__(_next, self, key):
         try:
-            del self.cache[key]
-        except KeyError:
-            pass
-        _next(self, key)
+            _next(self, key)
+        finally:
+            # other behaviors may read the child while deleting it
+            try:
+                del self.cache[key]
+            except KeyError:
+                pass
 
     @plumb
     def __iter__(_next, self):
-- 
2.43.0


From c13dd4649922540a750c7549bdefbbf80cf6da5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:38 +0000
Subject: [PATCH 30/31] fix: only release a replaced child from the index when
 it was replaced

---
 src/node/behaviors/reference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 9e3e2b8..7a3ff4b 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -44,7 +44,8 @@ class Reference(Behavior):
                     raise ValueError('Node with uuid already exists')
         replaced = self._replaced(key)
         _next(self, key, val)
-        if replaced is not val and hasattr(replaced, '_to_delete'):
+        if replaced is not self._replaced(key) \
+                and hasattr(replaced, '_to_delete'):
             self._release(replaced._to_delete())
         if reference:
             index = val._index
-- 
2.43.0


From 4d046ad5eb14fc772d4544d0020d741b2aa76888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:29 +0000
Subject: [PATCH 31/31] fix: call decorated subscribers of an event attribute
 only for its own event

A dispatcher overriding dispatch which does not pass the event on, or which
dispatches another event first, left the decorated subscribers pending. They
were called with whatever event was dispatched next, on whatever dispatcher.
---
 src/node/behaviors/events.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index cef7195..e1ccd71 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -99,6 +99,7 @@ class UnknownEvent(ValueError):
 class _attribute_subscribers_data(threading.local):
 
     def __init__(self):
+        self.target = None
         self.subscribers = list()
 
 
@@ -106,14 +107,21 @@ _attribute_subscribers = _attribute_subscribers_data()
 
 
 @contextmanager
-def _subscribers(subscribers):
+def _subscribers(obj, event, subscribers):
     """Context manager to inject subscribers to ``Events.dispatch``.
 
     Used in to inject subscribers registered with
-    ``EventAttributes.subscriber`` decorator.
+    ``EventAttributes.subscriber`` decorator. They are only called when the
+    given event is dispatched on given object.
     """
+    previous = _attribute_subscribers.target, _attribute_subscribers.subscribers
+    _attribute_subscribers.target = (obj, event)
     _attribute_subscribers.subscribers = subscribers
-    yield
+    try:
+        yield
+    finally:
+        _attribute_subscribers.target = previous[0]
+        _attribute_subscribers.subscribers = previous[1]
 
 
 class EventAttribute(object):
@@ -196,7 +204,7 @@ class EventAttribute(object):
         old_value = storage.get(self.name, self.default)
         storage[self.name] = value
         if self.always_dispatch or value != old_value:
-            with _subscribers(self.subscribers):
+            with _subscribers(obj, self.name, self.subscribers):
                 obj.dispatch(self.name, value)
 
     def __delete__(self, obj):
@@ -308,8 +316,12 @@ class Events(Behavior):
         :param args: Arguments passed to subscribers.
         :patam kw: Keyword arguments passed to subscribers.
         """
-        attribute_subscribers = _attribute_subscribers.subscribers
-        _attribute_subscribers.subscribers = list()
+        attribute_subscribers = list()
+        target = _attribute_subscribers.target
+        if target is not None and target[0] is self and target[1] == event:
+            attribute_subscribers = _attribute_subscribers.subscribers
+            _attribute_subscribers.target = None
+            _attribute_subscribers.subscribers = list()
         if suppress_events.data.suppress > 0:
             if ALL_EVENTS in suppress_events.data.events:
                 return
-- 
2.43.0

