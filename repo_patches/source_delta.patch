From b80e2b08b56f4987b4b3131945a1fddba998b010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:23 +0000
Subject: [PATCH 01/39] fix: initialize thread local event and fallback data in
 each thread

---
 src/node/behaviors/events.py   | 24 +++++++++++++++++++-----
 src/node/behaviors/fallback.py | 11 +++++++++--
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 5cfe9fa..0b90830 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -37,6 +37,15 @@ def event_dispatcher_metclass_hook(cls, name, bases, dct):
 ALL_EVENTS = object()
 
 
+class _SuppressData(threading.local):
+    """Event suppression data, initialized for each thread.
+    """
+
+    def __init__(self):
+        self.suppress = 0
+        self.events = list()
+
+
 class suppress_events(object):
     """Context manager to suppress event notification.
 
@@ -61,9 +70,7 @@ class suppress_events(object):
         with suppress_events(['event_1', 'event_2']):
             pass  # do something
     """
-    data = threading.local()
-    data.suppress = 0
-    data.events = list()
+    data = _SuppressData()
 
     def __init__(self, events=ALL_EVENTS):
         type_ = type(events)
@@ -88,8 +95,15 @@ class UnknownEvent(ValueError):
     """
 
 
-_attribute_subscribers = threading.local()
-_attribute_subscribers.subscribers = list()
+class _AttributeSubscribers(threading.local):
+    """Event attribute subscribers, initialized for each thread.
+    """
+
+    def __init__(self):
+        self.subscribers = list()
+
+
+_attribute_subscribers = _AttributeSubscribers()
 
 
 @contextmanager
diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index 9d6562a..57a390f 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -10,9 +10,16 @@ import threading
 _marker = dict()
 
 
+class _FallbackData(threading.local):
+    """Fallback processing data, initialized for each thread.
+    """
+
+    def __init__(self):
+        self.processing = -1
+
+
 class fallback_processing(object):
-    data = threading.local()
-    data.processing = -1
+    data = _FallbackData()
 
     def __enter__(self):
         self.data.processing += 1
-- 
2.43.0


From 23c853b76b0b74ef10a1d9fe8317aba27371fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 02/39] fix: register suppressed events when entering
 suppress_events, not at creation

---
 src/node/behaviors/events.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 0b90830..63cfc02 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -76,11 +76,10 @@ class suppress_events(object):
         type_ = type(events)
         if type_ not in (list, tuple):
             events = [events]
-        for event in events:
-            self.data.events.append(event)
-        self.events = events
+        self.events = list(events)
 
     def __enter__(self):
+        self.data.events.extend(self.events)
         self.data.suppress += 1
         return self.data.suppress
 
-- 
2.43.0


From eb3d6b75750429a47acea5a7a141e0c636140732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:43 +0000
Subject: [PATCH 03/39] fix: do not pass constructor arguments to
 object.__new__ in Events

---
 src/node/behaviors/events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index 63cfc02..c9019b6 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -249,7 +249,8 @@ class Events(Behavior):
     def __new__(cls, *args, **kw):
         """Set ``__events__`` and ``__subscribers__`` attributes on instance.
         """
-        inst = super(type, cls).__new__(cls, *args, **kw)
+        # arguments are for ``__init__`` only, ``object.__new__`` takes none
+        inst = super(type, cls).__new__(cls)
         inst.__events__ = list()
         inst.__subscribers__ = dict()
         return inst
-- 
2.43.0


From 40e621a49cb41d1746f3431b618d70af29eba51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 04/39] fix: do not leak event attributes of a class into its
 base classes

---
 src/node/behaviors/events.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index c9019b6..d0149a7 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -24,8 +24,9 @@ def event_dispatcher_metclass_hook(cls, name, bases, dct):
     """
     if not IEvents.implementedBy(cls):
         return
-    if not hasattr(cls, '__events__'):
-        cls.__events__ = list()
+    # never share the list of events with a base class
+    if '__events__' not in cls.__dict__:
+        cls.__events__ = list(getattr(cls, '__events__', list()))
     events = cls.__events__
     for attr, val in dct.items():
         if isinstance(val, EventAttribute):
-- 
2.43.0


From 12a9c7b3a68fb580486cc21ff0b990534d864f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 05/39] fix: do not skip subscribers if bindings change during
 dispatch

---
 src/node/behaviors/events.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/events.py b/src/node/behaviors/events.py
index d0149a7..915d82b 100644
--- a/src/node/behaviors/events.py
+++ b/src/node/behaviors/events.py
@@ -319,5 +319,6 @@ class Events(Behavior):
                 return
         for subscriber in attribute_subscribers:
             subscriber(self, *args, **kw)
-        for subscriber in self.__subscribers__.get(event, list()):
+        # subscribers may bind or unbind while being called
+        for subscriber in list(self.__subscribers__.get(event, list())):
             subscriber(*args, **kw)
-- 
2.43.0


From 954424b5747de04c0b035a012479a3d85cc0cd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:17 +0000
Subject: [PATCH 06/39] fix: do not mute lifecycle events after a failed detach

---
 src/node/behaviors/lifecycle.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/lifecycle.py b/src/node/behaviors/lifecycle.py
index a6e6209..0910986 100644
--- a/src/node/behaviors/lifecycle.py
+++ b/src/node/behaviors/lifecycle.py
@@ -51,8 +51,10 @@ class Lifecycle(Behavior):
     @plumb
     def detach(_next, self, key):
         self._notify_suppress = True
-        node = _next(self, key)
-        self._notify_suppress = False
+        try:
+            node = _next(self, key)
+        finally:
+            self._notify_suppress = False
         objectEventNotify(self.events['detached'](node, oldParent=self,
                                                   oldName=key))
         return node
-- 
2.43.0


From 7b42c664feed7f93b786c7957ef6f1f247799abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 07/39] fix: index nodes with nil uuid under their uuid

---
 src/node/behaviors/reference.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 5545b7b..4c8c6b7 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -73,11 +73,11 @@ class Reference(Behavior):
     @override
     @uuid.setter
     def uuid(self, uuid):
-        iuuid = uuid is not None and int(uuid) or None
+        iuuid = int(uuid) if uuid is not None else None
         if iuuid in self._index \
                 and self._index[iuuid] is not self:
             raise ValueError('Given uuid was already used for another Node')
-        siuuid = self._uuid is not None and int(self._uuid) or None
+        siuuid = int(self._uuid) if self._uuid is not None else None
         if siuuid in self._index:
             del self._index[siuuid]
         self._index[iuuid] = self
-- 
2.43.0


From 81a187be9da517cb64e0bd4683e4c5c373158aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 08/39] fix: refuse leaf nodes with already used uuid in
 referenced trees

---
 src/node/behaviors/reference.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 4c8c6b7..4ef6a78 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -39,13 +39,8 @@ class Reference(Behavior):
     @plumb
     def __setitem__(_next, self, key, val):
         if INode.providedBy(val):
-            try:
-                next(val.iterkeys())
-                keys = set(self._index.keys())
-                if keys.intersection(val._index.keys()):
-                    raise ValueError('Node with uuid already exists')
-            except StopIteration:
-                pass
+            if any(iuuid in self._index for iuuid in val._index):
+                raise ValueError('Node with uuid already exists')
             self._index.update(val._index)
             val._index = self._index
         _next(self, key, val)
-- 
2.43.0


From 7a088108d6e75b80099b7e20f627e3d0add27737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:33 +0000
Subject: [PATCH 09/39] fix: share index with all nodes of an attached subtree

---
 src/node/behaviors/reference.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 4ef6a78..2e4b878 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -41,8 +41,10 @@ class Reference(Behavior):
         if INode.providedBy(val):
             if any(iuuid in self._index for iuuid in val._index):
                 raise ValueError('Node with uuid already exists')
+            nodes = list(val._index.values())
             self._index.update(val._index)
-            val._index = self._index
+            for node in nodes:
+                node._index = self._index
         _next(self, key, val)
 
     @plumb
-- 
2.43.0


From 6ba58b3b5e92ffc00bdc64c78a322b1bde4be6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:57 +0000
Subject: [PATCH 10/39] fix: separate index of deleted and popped nodes from
 their former tree

---
 src/node/behaviors/reference.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 2e4b878..b254767 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -51,10 +51,14 @@ class Reference(Behavior):
     def __delitem__(_next, self, key):
         # fail immediately if key does not exist
         todel = self[key]
+        removed = dict()
         if hasattr(todel, '_to_delete'):
             for iuuid in todel._to_delete():
-                del self._index[iuuid]
+                removed[iuuid] = self._index.pop(iuuid)
         _next(self, key)
+        # removed nodes are a tree of their own from now on
+        for node in removed.values():
+            node._index = removed
 
     @plumb
     def detach(_next, self, key):
-- 
2.43.0


From 92c1593b283dbaef2b5cbbd634ea43b6afc944b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:59 +0000
Subject: [PATCH 11/39] fix: detach values which are no referencing nodes

---
 src/node/behaviors/reference.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index b254767..1c37061 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -63,6 +63,8 @@ class Reference(Behavior):
     @plumb
     def detach(_next, self, key):
         node = _next(self, key)
+        if not IReference.providedBy(node):
+            return node
         node._index = {int(node.uuid): node}
         node._index_nodes()
         return node
-- 
2.43.0


From 4f16ddb7b736db3f4ec2a60c0b350453ab6cd080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 12/39] fix: keep reference index if setting or deleting a
 child fails

---
 src/node/behaviors/reference.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 1c37061..54a32c9 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -41,11 +41,20 @@ class Reference(Behavior):
         if INode.providedBy(val):
             if any(iuuid in self._index for iuuid in val._index):
                 raise ValueError('Node with uuid already exists')
-            nodes = list(val._index.values())
-            self._index.update(val._index)
-            for node in nodes:
+            added = val._index
+            self._index.update(added)
+            for node in added.values():
                 node._index = self._index
-        _next(self, key, val)
+            try:
+                _next(self, key, val)
+            except Exception:
+                for iuuid in added:
+                    del self._index[iuuid]
+                for node in added.values():
+                    node._index = added
+                raise
+        else:
+            _next(self, key, val)
 
     @plumb
     def __delitem__(_next, self, key):
@@ -54,8 +63,13 @@ class Reference(Behavior):
         removed = dict()
         if hasattr(todel, '_to_delete'):
             for iuuid in todel._to_delete():
-                removed[iuuid] = self._index.pop(iuuid)
-        _next(self, key)
+                if iuuid in self._index:
+                    removed[iuuid] = self._index.pop(iuuid)
+        try:
+            _next(self, key)
+        except Exception:
+            self._index.update(removed)
+            raise
         # removed nodes are a tree of their own from now on
         for node in removed.values():
             node._index = removed
-- 
2.43.0


From 57c60966886ca6189dde95f1713d643a2142682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 13/39] fix: remove replaced child and its descendants from
 reference index

---
 src/node/behaviors/reference.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 54a32c9..0a90d32 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -38,6 +38,7 @@ class Reference(Behavior):
 
     @plumb
     def __setitem__(_next, self, key, val):
+        replaced = self._stored_child(key)
         if INode.providedBy(val):
             if any(iuuid in self._index for iuuid in val._index):
                 raise ValueError('Node with uuid already exists')
@@ -55,6 +56,14 @@ class Reference(Behavior):
                 raise
         else:
             _next(self, key, val)
+        if replaced is not None and replaced is not val:
+            removed = dict()
+            for iuuid in replaced._to_delete():
+                if iuuid in self._index:
+                    removed[iuuid] = self._index.pop(iuuid)
+            # replaced nodes are a tree of their own from now on
+            for node in removed.values():
+                node._index = removed
 
     @plumb
     def __delitem__(_next, self, key):
@@ -109,6 +118,18 @@ class Reference(Behavior):
     def node(self, uuid):
         return self._index.get(int(uuid))
 
+    @default
+    def _stored_child(self, key):
+        """Return referencing child stored by key or None. Does not use
+        ``__getitem__``, which is not supposed to create or search children
+        here.
+        """
+        try:
+            child = self.storage[key]
+        except (AttributeError, KeyError):
+            return None
+        return child if IReference.providedBy(child) else None
+
     @default
     def _to_delete(self):
         todel = [int(self.uuid)]
-- 
2.43.0


From 4efda08dba024bc14b20f442a424ddbf6bcad840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:10 +0000
Subject: [PATCH 14/39] fix: do not keep children cached while they get set or
 deleted

---
 src/node/behaviors/cache.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/cache.py b/src/node/behaviors/cache.py
index 4c7eeca..7d221d7 100644
--- a/src/node/behaviors/cache.py
+++ b/src/node/behaviors/cache.py
@@ -105,7 +105,14 @@ class Cache(Behavior):
             del self.cache[key]
         except KeyError:
             pass
-        _next(self, key, value)
+        try:
+            _next(self, key, value)
+        finally:
+            # child might have been read, and thus cached, while setting
+            try:
+                del self.cache[key]
+            except KeyError:
+                pass
 
     @plumb
     def __delitem__(_next, self, key):
@@ -113,7 +120,14 @@ class Cache(Behavior):
             del self.cache[key]
         except KeyError:
             pass
-        _next(self, key)
+        try:
+            _next(self, key)
+        finally:
+            # child might have been read, and thus cached, while deleting
+            try:
+                del self.cache[key]
+            except KeyError:
+                pass
 
     @plumb
     def __iter__(_next, self):
-- 
2.43.0


From eeef1b4873a989a31515380f64475eff7a013214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 15/39] fix: refuse inserting a node under a name already in
 use

---
 src/node/behaviors/order.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 972cf2e..70bb51d 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -52,6 +52,8 @@ class Order(Behavior):
     def _validateinsertion(self, node):
         if node.name is None:
             raise ValueError('Given node has no __name__ set.')
+        if node.name in self.keys():
+            raise KeyError('Given node already contained in tree.')
         # case if Reference behavior is mixed in
         # XXX: move out of here
         if hasattr(self, 'node'):
-- 
2.43.0


From f1c34567bd540b34c0898b0d64321454e05c0f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 16/39] fix: validate first node inserted into an empty node

---
 src/node/behaviors/order.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 70bb51d..b48efd7 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -16,6 +16,7 @@ class Order(Behavior):
     def insertfirst(self, newnode):
         keys = self.keys()
         if not keys:
+            self._validateinsertion(newnode)
             self[newnode.name] = newnode
             return
         refnode = self[keys[0]]
@@ -25,6 +26,7 @@ class Order(Behavior):
     def insertlast(self, newnode):
         keys = self.keys()
         if not keys:
+            self._validateinsertion(newnode)
             self[newnode.name] = newnode
             return
         refnode = self[keys[-1]]
-- 
2.43.0


From 061c2987d9cc18a1c9a936c24373cd1797407203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 17/39] fix: leave no refused node behind at ordered insertion

---
 src/node/behaviors/order.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index b48efd7..5f982f9 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -39,7 +39,7 @@ class Order(Behavior):
             self.storage.insertbefore(refnode.name, newnode.name, newnode)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
-        self[newnode.name] = newnode
+        self._setinserted(newnode)
 
     @override
     def insertafter(self, newnode, refnode):
@@ -48,7 +48,17 @@ class Order(Behavior):
             self.storage.insertafter(refnode.name, newnode.name, newnode)
         except KeyError:
             raise ValueError('Given reference node not child of self.')
-        self[newnode.name] = newnode
+        self._setinserted(newnode)
+
+    @override
+    def _setinserted(self, newnode):
+        name = newnode.name
+        try:
+            self[name] = newnode
+        except Exception:
+            # node has been refused, remove it from where it was inserted
+            del self.storage[name]
+            raise
 
     @override
     def _validateinsertion(self, node):
-- 
2.43.0


From d9ac82165e77407ff43b6ed12dc1a254d03437a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:40 +0000
Subject: [PATCH 18/39] fix: unalias keys with empty suffix

---
 src/node/behaviors/alias.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/alias.py b/src/node/behaviors/alias.py
index cfbcddc..0dcb1f5 100644
--- a/src/node/behaviors/alias.py
+++ b/src/node/behaviors/alias.py
@@ -86,7 +86,7 @@ class SuffixAliaser(object):
                 suffixed_key,
                 suffix
             ))
-        return suffixed_key[:-len(suffix)]
+        return suffixed_key[:len(suffixed_key) - len(suffix)]
 
 
 @implementer(IAliaser)
-- 
2.43.0


From 0b14ecd40e012eb73babcb741f6c1e12be9c5780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:42 +0000
Subject: [PATCH 19/39] fix: do not ignore empty aliaser

---
 src/node/behaviors/alias.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/alias.py b/src/node/behaviors/alias.py
index 0dcb1f5..5031911 100644
--- a/src/node/behaviors/alias.py
+++ b/src/node/behaviors/alias.py
@@ -126,7 +126,7 @@ class Alias(Behavior):
 
     @plumb
     def __getitem__(_next, self, key):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -137,7 +137,7 @@ class Alias(Behavior):
 
     @plumb
     def __setitem__(_next, self, key, val):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -148,7 +148,7 @@ class Alias(Behavior):
 
     @plumb
     def __delitem__(_next, self, key):
-        if self.aliaser:
+        if self.aliaser is not None:
             unaliased_key = self.aliaser.unalias(key)
         else:
             unaliased_key = key
@@ -161,7 +161,7 @@ class Alias(Behavior):
     def __iter__(_next, self):
         for key in _next(self):
             try:
-                if self.aliaser:
+                if self.aliaser is not None:
                     yield self.aliaser.alias(key)
                 else:
                     yield key
-- 
2.43.0


From 1e5e1ec1c12a2d06e1429a264da5409876c55f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 20/39] fix: deepcopy UUID aware nodes containing non-node
 values

---
 src/node/behaviors/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 02e4b56..8a2332f 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -208,4 +208,7 @@ class UUIDAware(Behavior):
                 node.uuid = self.uuid_factory()
         if recursiv:
             for child in node.values():
+                # non-Node values are a dead end, no magic for them
+                if not INode.providedBy(child):
+                    continue
                 self.set_uuid_for(child, override, recursiv)
-- 
2.43.0


From 7a716db285b2b7f81b9cbfc8e85c95bbaaa8d5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:47 +0000
Subject: [PATCH 21/39] fix: keep identity of UNSET when copied or pickled

---
 src/node/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/node/utils.py b/src/node/utils.py
index d720ba6..8c8209d 100644
--- a/src/node/utils.py
+++ b/src/node/utils.py
@@ -33,6 +33,10 @@ class Unset(object):
     def __repr__(self):
         return '<UNSET>'
 
+    def __reduce__(self):
+        # keep identity of ``UNSET`` when copied or pickled
+        return 'UNSET'
+
 
 UNSET = Unset()
 
-- 
2.43.0


From e1e8ae90a3ae7fe8dfac85212483c32480e22135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 22/39] fix: decode UUIDs, objects and nodes inside of
 dictionaries

---
 src/node/serializer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index ea27ef4..980ac60 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -193,8 +193,10 @@ class NodeDecoder(object):
                 elif isinstance(node, cls):
                     callback(self, node, node_data)
             return node
-        # no custom deserialization required
-        return data
+        # decode data from plain dict
+        return dict([
+            (key, self.decode(it, parent=parent)) for key, it in data.items()
+        ])
 
 
 ###############################################################################
-- 
2.43.0


From 953d7a0d6bd37b3b48572ac97b0425ea5b6a7146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 23/39] fix: import not yet imported modules when deserializing

---
 src/node/serializer.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index 980ac60..db9ef1b 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -145,9 +145,16 @@ class NodeDecoder(object):
         """Resolve dotted name to object.
         """
         components = name.split('.')
-        ob = __import__(components[0])
+        path = components[0]
+        ob = __import__(path)
         for comp in components[1:]:
-            ob = getattr(ob, comp)
+            path = '.'.join([path, comp])
+            try:
+                ob = getattr(ob, comp)
+            except AttributeError:
+                # might be a module which is not imported yet
+                __import__(path)
+                ob = getattr(ob, comp)
         return ob
 
     def node_factory(self, data, parent=None):
-- 
2.43.0


From 17eb9b70d4244879e9a8d8a7e296990f5fdb971b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:50 +0000
Subject: [PATCH 24/39] fix: serialize attributes of nodes using attribute
 access

---
 src/node/serializer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/node/serializer.py b/src/node/serializer.py
index db9ef1b..a51d945 100644
--- a/src/node/serializer.py
+++ b/src/node/serializer.py
@@ -4,6 +4,7 @@ from inspect import isfunction
 from inspect import ismethod
 from node.compat import IS_PY2
 from node.compat import STR_TYPE
+from node.interfaces import IAttributeAccess
 from node.interfaces import IAttributes
 from node.interfaces import INode
 from node.utils import UNSET
@@ -235,7 +236,11 @@ def deserialize_node(decoder, node, data):
 @serializer(IAttributes)
 def serialize_node_attributes(encoder, node, data):
     attrs = data.setdefault('attrs', dict())
-    for name, child in node.attrs.items():
+    node_attrs = node.attrs
+    if IAttributeAccess.providedBy(node_attrs):
+        # attribute access provides no mapping API
+        node_attrs = object.__getattribute__(node_attrs, 'context')
+    for name, child in node_attrs.items():
         attrs[name] = encoder.default(child)
 
 
-- 
2.43.0


From 5c40723051378e258dd1e6420128744a3bcbde50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 25/39] fix: create tree lock once if requested by several
 threads

---
 src/node/locking.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/node/locking.py b/src/node/locking.py
index c6557a0..f3dedf3 100644
--- a/src/node/locking.py
+++ b/src/node/locking.py
@@ -1,14 +1,22 @@
 # -*- coding: utf-8 -*-
+from threading import Lock
 from threading import RLock
 
 
+_creation_lock = Lock()
+
+
 class TreeLock(object):
 
     def __init__(self, node):
         root = node.root
         self.lock = getattr(root, '_treelock', None)
         if self.lock is None:
-            self.lock = root._treelock = RLock()
+            # all threads must get the same lock
+            with _creation_lock:
+                self.lock = getattr(root, '_treelock', None)
+                if self.lock is None:
+                    self.lock = root._treelock = RLock()
 
     def acquire(self):
         self.lock.acquire()
-- 
2.43.0


From 0ccc29ac75278784f1c332dad69e441671c7eab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 26/39] fix: continue fallback lookup if a fallback child is
 missing

---
 src/node/behaviors/fallback.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index 57a390f..7657904 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -38,7 +38,10 @@ def _to_root(node, path, visited):
     if not getattr(parent, 'fallback_key', _marker) or node in visited:
         return _to_root(parent, path=path, visited=visited)
     visited.update({node})
-    return _to_leaf(parent[parent.fallback_key], path=path, visited=visited)
+    fallback = parent.get(parent.fallback_key, _marker)
+    if fallback is _marker:
+        return _to_root(parent, path=path, visited=visited)
+    return _to_leaf(fallback, path=path, visited=visited)
 
 
 def _to_leaf(node, path, visited):
-- 
2.43.0


From 95c0f73b9842c03d8e44ff8072fb02377dce6129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 27/39] fix: invalidate all children of caching nodes if no key
 is given

---
 src/node/behaviors/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node/behaviors/cache.py b/src/node/behaviors/cache.py
index 7d221d7..0fbab8f 100644
--- a/src/node/behaviors/cache.py
+++ b/src/node/behaviors/cache.py
@@ -86,8 +86,8 @@ class Cache(Behavior):
             except KeyError:
                 pass
         else:
-            for key in _keys(cache):
-                del cache[key]
+            for cached_key in _keys(cache):
+                del cache[cached_key]
         _next(self, key=key)
 
     @plumb
-- 
2.43.0


From 55f3b7e9ea917479555b91051d73fbab01d44705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:41 +0000
Subject: [PATCH 28/39] fix: read item named context through attribute access

---
 src/node/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/node/utils.py b/src/node/utils.py
index 8c8209d..0940406 100644
--- a/src/node/utils.py
+++ b/src/node/utils.py
@@ -102,12 +102,19 @@ class ReverseMapping(object):
 @implementer(IAttributeAccess)
 class AttributeAccess(object):
     """If someone really needs to access the original context (which should
-    not happen), she hast to use ``object.__getattr__(attraccess, 'context')``.
+    not happen), she hast to use
+    ``object.__getattribute__(attraccess, 'context')``.
     """
 
     def __init__(self, context):
         object.__setattr__(self, 'context', context)
 
+    def __getattribute__(self, name):
+        if name == 'context':
+            # an item of this name, see above how to access the context
+            raise AttributeError(name)
+        return object.__getattribute__(self, name)
+
     def __getattr__(self, name):
         context = object.__getattribute__(self, 'context')
         try:
-- 
2.43.0


From c6122c54a0b472481e5166d054747869ee33e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:58 +0000
Subject: [PATCH 29/39] fix: acquire beyond nodes which are considered false

---
 src/node/behaviors/nodify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/behaviors/nodify.py b/src/node/behaviors/nodify.py
index ced1069..b2c96ca 100644
--- a/src/node/behaviors/nodify.py
+++ b/src/node/behaviors/nodify.py
@@ -71,7 +71,7 @@ class Nodify(FullMapping):
     @override
     def acquire(self, interface):
         node = self.parent
-        while node:
+        while node is not None:
             if (IInterface.providedBy(interface) and
                     interface.providedBy(node)) or \
                     isinstance(node, interface):
-- 
2.43.0


From c488d12abded2f0a30019077ff37846649fac852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:04 +0000
Subject: [PATCH 30/39] fix: revert adoption if container is read-only

---
 src/node/behaviors/common.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 8a2332f..2dd7c0d 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -38,7 +38,12 @@ class Adopt(Behavior):
         val.__parent__ = self
         try:
             _next(self, key, val)
-        except (AttributeError, KeyError, ValueError):
+        except (
+            AttributeError,
+            KeyError,
+            NotImplementedError,
+            ValueError
+        ):
             # XXX: In what other cases do we want to revert adoption?
             val.__name__ = old_name
             val.__parent__ = old_parent
-- 
2.43.0


From b3d8874dc01d66018cd475940fd7acd22807dbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:47 +0000
Subject: [PATCH 31/39] fix: insertfirst and insertlast next to a plain value

The first or last child is not necessarily a node: containers accepting
plain values raised AttributeError.
---
 src/node/behaviors/order.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/order.py b/src/node/behaviors/order.py
index 5f982f9..70fa178 100644
--- a/src/node/behaviors/order.py
+++ b/src/node/behaviors/order.py
@@ -19,8 +19,10 @@ class Order(Behavior):
             self._validateinsertion(newnode)
             self[newnode.name] = newnode
             return
-        refnode = self[keys[0]]
-        self.insertbefore(newnode, refnode)
+        # first child is not necessarily a node
+        self._validateinsertion(newnode)
+        self.storage.insertbefore(keys[0], newnode.name, newnode)
+        self._setinserted(newnode)
 
     @override
     def insertlast(self, newnode):
@@ -29,8 +31,10 @@ class Order(Behavior):
             self._validateinsertion(newnode)
             self[newnode.name] = newnode
             return
-        refnode = self[keys[-1]]
-        self.insertafter(newnode, refnode)
+        # last child is not necessarily a node
+        self._validateinsertion(newnode)
+        self.storage.insertafter(keys[-1], newnode.name, newnode)
+        self._setinserted(newnode)
 
     @override
     def insertbefore(self, newnode, refnode):
-- 
2.43.0


From e02460f241e443d8909700dff14df4b7de9e9d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 32/39] fix: raise AttributeError for missing children accessed
 as attributes

---
 src/node/behaviors/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 2dd7c0d..174fa8d 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -139,7 +139,10 @@ class GetattrChildren(Behavior):
         """For new-style classes __getattr__ is called, if the
         attribute could not be found via MRO
         """
-        return self[name]
+        try:
+            return self[name]
+        except KeyError:
+            raise AttributeError(name)
 
 
 @implementer(INodeChildValidate)
-- 
2.43.0


From e03a8afb6ac67244109354b0bb1e2152691128b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 33/39] fix: do not take errors below a deleted node for plain
 values

---
 src/node/behaviors/reference.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 0a90d32..91cc846 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -134,12 +134,11 @@ class Reference(Behavior):
     def _to_delete(self):
         todel = [int(self.uuid)]
         for childkey in self:
-            try:
-                todel += self[childkey]._to_delete()
-            except AttributeError:
-                # Non-Node values or non referencing children are not told
-                # about deletion.
-                continue
+            child = self[childkey]
+            # Non-Node values or non referencing children are not told about
+            # deletion.
+            if hasattr(child, '_to_delete'):
+                todel += child._to_delete()
         return todel
 
     @default
-- 
2.43.0


From 401937a7d9059cc2191d7079a1e8359e82cc1376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 34/39] fix: remember visited nodes of a fallback lookup by
 identity

---
 src/node/behaviors/fallback.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/node/behaviors/fallback.py b/src/node/behaviors/fallback.py
index 7657904..74d2c9b 100644
--- a/src/node/behaviors/fallback.py
+++ b/src/node/behaviors/fallback.py
@@ -35,9 +35,10 @@ def _to_root(node, path, visited):
     parent = node.__parent__
     if parent is None:
         return _marker
-    if not getattr(parent, 'fallback_key', _marker) or node in visited:
+    if not getattr(parent, 'fallback_key', _marker) or id(node) in visited:
         return _to_root(parent, path=path, visited=visited)
-    visited.update({node})
+    # keep track by identity, nodes may be equal or not hashable
+    visited[id(node)] = node
     fallback = parent.get(parent.fallback_key, _marker)
     if fallback is _marker:
         return _to_root(parent, path=path, visited=visited)
@@ -72,7 +73,7 @@ class Fallback(Behavior):
             with fallback_processing() as count:
                 if count > 0:
                     raise
-                value = _to_root(self, path=self.path + [key], visited=set())
+                value = _to_root(self, path=self.path + [key], visited={})
                 if value is _marker:
                     raise
         return value
-- 
2.43.0


From 86fde1a49961b2809837f66c8cee05355a189788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 35/39] fix: remove replaced child of aliased and custom
 mappings from reference index

---
 src/node/behaviors/reference.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index 91cc846..d3aa166 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from node.interfaces import IAlias
 from node.interfaces import INode
 from node.interfaces import IReference
 from plumber import Behavior
@@ -124,9 +125,17 @@ class Reference(Behavior):
         ``__getitem__``, which is not supposed to create or search children
         here.
         """
+        if not hasattr(self, 'storage'):
+            for child in self._index.values():
+                if child.__parent__ is self and child.__name__ == key:
+                    return child
+            return None
         try:
+            if IAlias.providedBy(self) and self.aliaser is not None:
+                # storage contains unaliased keys
+                key = self.aliaser.unalias(key)
             child = self.storage[key]
-        except (AttributeError, KeyError):
+        except KeyError:
             return None
         return child if IReference.providedBy(child) else None
 
-- 
2.43.0


From d281768a5b4fa1a1407a6570feaa29abeee79293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 36/39] fix: do not mistake values of referencing nodes for
 nodes

---
 src/node/behaviors/reference.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/node/behaviors/reference.py b/src/node/behaviors/reference.py
index d3aa166..0fe5ed8 100644
--- a/src/node/behaviors/reference.py
+++ b/src/node/behaviors/reference.py
@@ -71,7 +71,7 @@ class Reference(Behavior):
         # fail immediately if key does not exist
         todel = self[key]
         removed = dict()
-        if hasattr(todel, '_to_delete'):
+        if IReference.providedBy(todel):
             for iuuid in todel._to_delete():
                 if iuuid in self._index:
                     removed[iuuid] = self._index.pop(iuuid)
@@ -146,18 +146,16 @@ class Reference(Behavior):
             child = self[childkey]
             # Non-Node values or non referencing children are not told about
             # deletion.
-            if hasattr(child, '_to_delete'):
+            if IReference.providedBy(child):
                 todel += child._to_delete()
         return todel
 
     @default
     def _index_nodes(self):
         for node in self.values():
-            try:
-                uuid = int(node.uuid)
-            except AttributeError:
+            if not IReference.providedBy(node):
                 # non-Node values are a dead end, no magic for them
                 continue
-            self._index[uuid] = node
+            self._index[int(node.uuid)] = node
             node._index = self._index
             node._index_nodes()
-- 
2.43.0


From 1f627ac59a55390ca521f2dfbdd416e209dbfae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 37/39] fix: revert adoption whatever error occurs while
 setting child

---
 src/node/behaviors/common.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 174fa8d..69316c7 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -38,13 +38,7 @@ class Adopt(Behavior):
         val.__parent__ = self
         try:
             _next(self, key, val)
-        except (
-            AttributeError,
-            KeyError,
-            NotImplementedError,
-            ValueError
-        ):
-            # XXX: In what other cases do we want to revert adoption?
+        except Exception:
             val.__name__ = old_name
             val.__parent__ = old_parent
             raise
-- 
2.43.0


From d5abff860c2af6b81d245723e67c3c221a8ff15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:18 +0000
Subject: [PATCH 38/39] fix: name of attributes factory in IAttributes

---
 src/node/interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node/interfaces.py b/src/node/interfaces.py
index e41c6eb..2f178ba 100644
--- a/src/node/interfaces.py
+++ b/src/node/interfaces.py
@@ -334,7 +334,7 @@ class IAttributes(Interface):
     """Plumbing behavior to provide attributes on node.
     """
     attrs = Attribute('``INodeAttributes`` implementation.')
-    attrs_factory = Attribute('``INodeAttributes`` implementation class.')
+    attributes_factory = Attribute('``INodeAttributes`` implementation class.')
 
 
 class ILifecycle(Interface):
-- 
2.43.0


From 06b15d6a485b23ebf77f82c10ef2dd9b0a9cb3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 39/39] fix: decode bytes keys and values of unicode aware
 nodes

---
 src/node/behaviors/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/node/behaviors/common.py b/src/node/behaviors/common.py
index 69316c7..708681f 100644
--- a/src/node/behaviors/common.py
+++ b/src/node/behaviors/common.py
@@ -159,21 +159,21 @@ class UnicodeAware(Behavior):
 
     @plumb
     def __delitem__(_next, self, key):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
         _next(self, key)
 
     @plumb
     def __getitem__(_next, self, key):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
         return _next(self, key)
 
     @plumb
     def __setitem__(_next, self, key, val):
-        if isinstance(key, str):
+        if isinstance(key, bytes):
             key = decode(key)
-        if isinstance(val, str):
+        if isinstance(val, bytes):
             val = decode(val)
         return _next(self, key, val)
 
-- 
2.43.0

