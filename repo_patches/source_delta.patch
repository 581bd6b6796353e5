From 0527e0a2e128b8f28bdf72a4d7ab9e2872ada79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 01/95] fix: Group.new honours its strict argument

---
 citrine/storage/group.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index bff8d13..57b0e36 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -269,7 +269,7 @@ class Group(Persistent):
                 raise ValueError('Collection sizes cannot be less than 1')
             collections = tuple(Collection(max_size=max_collection_size)
                                 for _ in range(size))
-            return Group(collections=collections)
+            return Group(collections=collections, strict=strict)
         # ensure any gaps are filled if custom definition is provided
         keys = tuple(custom.keys())
         if any(not isinstance(key, int) for key in keys):
@@ -289,7 +289,7 @@ class Group(Persistent):
         collections = tuple(Collection(max_size=max_collection_size,
                                        strict=strict)
                             for _, max_collection_size in sorted(custom.items()))
-        return Group(collections=collections)
+        return Group(collections=collections, strict=strict)
 
     @groupfn
     def get(self, key, default=None):
-- 
2.43.0


From d62566133446ee899ad3f3a16eaa0448027ca5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 02/95] fix: Group.new does not alter the caller's custom
 mapping

---
 citrine/storage/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 57b0e36..8cb3798 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -270,7 +270,9 @@ class Group(Persistent):
             collections = tuple(Collection(max_size=max_collection_size)
                                 for _ in range(size))
             return Group(collections=collections, strict=strict)
-        # ensure any gaps are filled if custom definition is provided
+        # ensure any gaps are filled if custom definition is provided, without
+        # altering the caller's mapping
+        custom = dict(custom)
         keys = tuple(custom.keys())
         if any(not isinstance(key, int) for key in keys):
             raise KeyError("Custom collection keys must be integers")
-- 
2.43.0


From e36df09e9b2a1116923870c9e53d7fb5f731ad3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 03/95] fix: inserting an existing key into a full strict
 collection is not refused

---
 citrine/storage/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index d2d2e5e..0f4ffa7 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -147,7 +147,8 @@ class Collection(Persistent):
         :raises CollectionCapacityError: if the size of the collection exceeds
         the limit in strict mode
         """
-        if self.size >= self.max_size and self.strict:
+        if (self.size >= self.max_size and self.strict
+                and not self.has_key(key)):
             raise CollectionCapacityError(
                 f'Cannot insert "{key}"; maximum size reached!'
             )
-- 
2.43.0


From bab7d18575d45c76160e1030ecedf4d39885466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 04/95] fix: Collection.setdefault respects the strict size
 limit

---
 citrine/storage/collection.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 0f4ffa7..4983c48 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -193,7 +193,14 @@ class Collection(Persistent):
         :param key: id of item to write to
         :param value: the value to write, if applicable
         :return: existing value or provided value if no value currently exists
+        :raises CollectionCapacityError: if the size of the collection exceeds
+        the limit in strict mode
         """
+        if (self.size >= self.max_size and self.strict
+                and not self.has_key(key)):
+            raise CollectionCapacityError(
+                f'Cannot set "{key}"; maximum size reached!'
+            )
         return self.tree.setdefault(key, value)
 
     def clear(self):
-- 
2.43.0


From 20208c9a64f36f6b2a5d47857e704b762b5ad5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:49 +0000
Subject: [PATCH 05/95] fix: a refused Group.update leaves every collection
 unchanged

---
 citrine/storage/group.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 8cb3798..265a03f 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -334,6 +334,15 @@ class Group(Persistent):
             split_collection[get_group_index(key, num_collections)][key] = value
         split_collection = {k: v for k, v in split_collection.items() if v}
 
+        # refuse before anything is written, or the collections that were
+        # reached before the full one would keep their part of the update
+        for index, items in split_collection.items():
+            target = self.collections[index]
+            new_keys = [key for key in items if not target.has_key(key)]
+            if target.strict and target.size + len(new_keys) > target.max_size:
+                raise GroupCapacityError("Maximum collection size reached! "
+                                         "Cannot perform update")
+
         for index, collection in split_collection.items():
             self.collections[index].update(collection)
 
-- 
2.43.0


From af76339178ed508f6de136de0129b63ed532b8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 06/95] fix: ordered views of a Group do not stop at falsy keys
 or values

---
 citrine/storage/group.py | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 265a03f..ea622ee 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -403,7 +403,7 @@ class Group(Persistent):
                 vals.append(next(gen))
             except StopIteration:
                 vals.append(None)
-        while any(vals):
+        while any(val is not None for val in vals):
             # get the lowest value
             next_val = minimum((v for v in vals if v is not None))
             # replace the lowest value with the next value from the generator
@@ -428,23 +428,7 @@ class Group(Persistent):
         :param max: the highest value to return
         :return: generator of values
         """
-        gens = [collection.itervalues(min, max)
-                for collection in self.collections]
-        vals = list()
-        for gen in gens:
-            try:
-                vals.append(next(gen))
-            except StopIteration:
-                vals.append(None)
-        while any(vals):
-            # get the lowest value
-            next_val = minimum((v for v in vals if v is not None))
-            # replace the lowest value with the next value from the generator
-            try:
-                vals[vals.index(next_val)] = next(gens[vals.index(next_val)])
-            except StopIteration:
-                vals[vals.index(next_val)] = None
-            yield next_val
+        return (value for key, value in self.iteritems(min, max))
 
     def items(self):
         """
@@ -472,7 +456,7 @@ class Group(Persistent):
                 items[item[0]] = item[1]
             except StopIteration:
                 keys.append(None)
-        while any(keys):
+        while any(key is not None for key in keys):
             # get the lowest value
             next_key = minimum((v for v in keys if v is not None))
             # replace the lowest value with the next value from the generator
-- 
2.43.0


From 775e9098495ccf9188b6a9608d167bbaeff9f3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 07/95] fix: Group.minKey and maxKey work while some
 collections are empty

---
 citrine/storage/group.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index ea622ee..324b27d 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -16,6 +16,17 @@ def get_group_index(id: str, num_collections):
     return int.from_bytes(id.encode()) % num_collections
 
 
+def existing_keys(collections, method, bound):
+    """
+    The minKey/maxKey of every collection that has a key within the bound
+    """
+    for collection in collections:
+        try:
+            yield getattr(collection, method)(bound)
+        except ValueError:
+            continue
+
+
 def groupfn(fn):
     # they key MUST be either a kwarg OR the first positional arg
     def decorator(obj, *args, **kwargs):
@@ -489,8 +500,7 @@ class Group(Persistent):
         :param max: highest key value to return
         :raise ValueError: if there are no keys in the collection
         """
-        return maximum(collection.maxKey(max)
-                       for collection in self.collections)
+        return maximum(existing_keys(self.collections, 'maxKey', max))
 
     def minKey(self, min=None):
         """
@@ -499,8 +509,7 @@ class Group(Persistent):
         :param max: lowest key value to return
         :raise ValueError: if there are no keys in the collection
         """
-        return minimum(collection.minKey(min)
-                       for collection in self.collections)
+        return minimum(existing_keys(self.collections, 'minKey', min))
 
     @groupfn
     def has_key(self, key):
-- 
2.43.0


From beda78307ac7e5e799e7831c49721e0ce38c7317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 08/95] fix: Group.popitem raises KeyError when the group is
 empty

---
 citrine/storage/group.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 324b27d..8440b4a 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -372,6 +372,8 @@ class Group(Persistent):
         Pop a key from the collection and return the key-value pair
         :raise KeyError: if the key is not present in the collection
         """
+        if not self.size:
+            raise KeyError("popitem(): group is empty")
         return self.minKey(), self.pop(self.minKey())
 
     @groupfn
-- 
2.43.0


From dd00316dd5860171d0f42e6b57a94f51f72146ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 09/95] fix: Container.read returns stored falsy values

---
 citrine/storage/container.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 4af595f..6c83335 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -365,8 +365,8 @@ class Container(Persistent, ContainerProperties):
         :return: the desired object if it exists, or the default if provided
         """
         for group in self.groups:
-            if ret := group.get(id):
-                return ret
+            if group.has_key(id):
+                return group.get(id)
         return default
 
     def write(self, id, obj):
-- 
2.43.0


From 792bae5cf58d7ba054c0d9ae14200d7b7ba707ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 10/95] fix: Container.delete only pops from the groups that
 hold the id

---
 citrine/storage/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 6c83335..d2f901a 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -385,7 +385,8 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier of the object
         :return: removed object
         """
-        return tuple(group.pop(id) for group in self.groups if self.has(id))
+        return tuple(group.pop(id) for group in self.groups
+                     if group.has_key(id))
 
     def __add__(self, other):
         """
-- 
2.43.0


From dd7c2711f6c48294717a2bd8c5b81067d70f0f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 11/95] fix: membership tests on a Container see the stored ids

---
 citrine/storage/container.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index d2f901a..3742caa 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -403,6 +403,7 @@ class Container(Persistent, ContainerProperties):
         :param item:
         :return:
         """
+        return self.has(item) > 0
 
     def __iter__(self):
         """
-- 
2.43.0


From 8f6bfb1a06230a1b434227ba7942310a54bb2129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 12/95] fix: condense does not lose an object the primary group
 refuses

---
 citrine/storage/container.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 3742caa..ec2e24f 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -322,7 +322,11 @@ class Container(Persistent, ContainerProperties):
         source_groups = self.groups[1:]
 
         if transfer:
-            fn = lambda group, key: self.primary.insert(key, group.pop(key))
+            # the value must be in the primary before it leaves the group, or
+            # it is lost when the primary refuses it
+            def fn(group, key):
+                self.primary.insert(key, group.get(key))
+                group.pop(key)
         else:
             fn = lambda group, key: self.primary.insert(key, group.get(key))
 
-- 
2.43.0


From b6ea46acd8587f550816d4a50722994f0ce0a394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 13/95] fix: condense commits each transferred object as its
 own transaction

---
 citrine/storage/container.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index ec2e24f..8e6c3d8 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -331,9 +331,9 @@ class Container(Persistent, ContainerProperties):
             fn = lambda group, key: self.primary.insert(key, group.get(key))
 
         if transaction_manager:
-            with transaction_manager as tm:
-                for group in source_groups:
-                    for key in list(group.keys()):
+            for group in source_groups:
+                for key in list(group.keys()):
+                    with transaction_manager as tm:
                         fn(group, key)
                         tm.commit()
         else:
-- 
2.43.0


From b47f012aeafe2f59eb43e25d08e90a5557090697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 14/95] fix: resize without condense never drops the secondary
 groups

---
 citrine/storage/container.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 8e6c3d8..3abc4b3 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -290,13 +290,11 @@ class Container(Persistent, ContainerProperties):
             removed = self.condense(transfer=transfer,
                                     transaction_manager=transaction_manager)
         else:
-            # if we only want to move over the data from the old primary,
-            # set aside all other groups, use condense, and put them back after
-            secondaries = self.groups[2:]
-            self.___groups___ = self.___groups___[:2]
-            removed = self.condense(transfer=transfer,
-                                    transaction_manager=transaction_manager)
-            self.___groups___ += secondaries
+            # if we only want to move over the data from the old primary, the
+            # other groups stay where they are
+            removed = self._condense_groups(
+                self.groups[1:2], transfer=transfer,
+                transaction_manager=transaction_manager)
         return removed
 
     def condense(self, transfer: bool = True, transaction_manager=None) \
@@ -319,8 +317,15 @@ class Container(Persistent, ContainerProperties):
         :param transaction_manager: transaction manager to use, if any
         :return: secondary groups removed from the container
         """
-        source_groups = self.groups[1:]
+        return self._condense_groups(self.groups[1:], transfer=transfer,
+                                     transaction_manager=transaction_manager)
 
+    def _condense_groups(self, source_groups, transfer: bool = True,
+                         transaction_manager=None) -> List[Group]:
+        """
+        Condenses the given secondary groups into the primary group; every
+        other group is left alone. See ``condense`` for the parameters.
+        """
         if transfer:
             # the value must be in the primary before it leaves the group, or
             # it is lost when the primary refuses it
@@ -342,14 +347,16 @@ class Container(Persistent, ContainerProperties):
                     fn(group, key)
 
         if transfer:
-            discarded = list(self.groups[1:])
+            remaining = tuple(
+                group for group in self.groups
+                if not any(group is source for source in source_groups))
             if transaction_manager:
                 with transaction_manager as tm:
-                    self.___groups___ = (self.groups[0],)
+                    self.___groups___ = remaining
                     tm.commit()
             else:
-                self.___groups___ = (self.groups[0],)
-            return discarded
+                self.___groups___ = remaining
+            return list(source_groups)
         return []
 
     def has(self, id) -> int:
-- 
2.43.0


From 3401589fb3801983ba81c9f29f432d1b630009b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 15/95] fix: resize refuses a capacity smaller than the stored
 objects

---
 citrine/storage/container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 3abc4b3..4de164c 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -262,6 +262,10 @@ class Container(Persistent, ContainerProperties):
         # Don't try to reinvent the wheel with a complex system, it will not
         # scale like the ugly if-else method does. Trust me, I tried.
 
+        if capacity < self.size:
+            raise ValueError(f'Cannot resize to {capacity}; {self.size} '
+                             f'objects are stored')
+
         # create a new group with a prime number of containers capable of
         # handling the capacity
         size = number_of_collections(
-- 
2.43.0


From 654fb39c9c2a380d267f7335417105b680c6314f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:16 +0000
Subject: [PATCH 16/95] fix: a Container's primary group is always its first
 group

---
 citrine/storage/container.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 4de164c..100feaa 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -186,8 +186,9 @@ class Container(Persistent, ContainerProperties):
         super().__init__()
         self.___primary___ = primary_group
         self.___groups___ = groups
-        if self.primary not in self.groups:
-            self.___groups___ = (self.primary,) + self.groups
+        # reading and condensing rely on the primary being the first group
+        self.___groups___ = (self.primary,) + tuple(
+            group for group in groups if group is not self.primary)
         self.___metadata___ = ContainerMeta(self)
         self.strict = strict
 
-- 
2.43.0


From be79495028fd5bc18c84e3f5c78a0cb4fdd9c962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:50 +0000
Subject: [PATCH 17/95] fix: a failed commit leaves the transaction manager
 usable

---
 citrine/storage/transaction.py | 46 +++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index a04a09f..fccf942 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -28,14 +28,23 @@ class TransactionManager(ZoTransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(
+                    f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(
+                    f'TRANSACTION {self.transaction_uuid} FAILED')
+        except BaseException:
+            # a transaction that could not be committed must not linger, the
+            # manager would refuse everything that follows
             self.abort()
-            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+            raise
+        finally:
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 class ThreadTransactionManager(ZoThreadTransactionManager):
@@ -57,14 +66,23 @@ class ThreadTransactionManager(ZoThreadTransactionManager):
         return super().__enter__()
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.commit()
-            self.logger.info(f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
-        else:
+        try:
+            if exc_val is None:
+                self.commit()
+                self.logger.info(
+                    f'TRANSACTION {self.transaction_uuid} SUCCESSFUL')
+            else:
+                self.abort()
+                self.logger.error(
+                    f'TRANSACTION {self.transaction_uuid} FAILED')
+        except BaseException:
+            # a transaction that could not be committed must not linger, the
+            # manager would refuse everything that follows
             self.abort()
-            self.logger.error(f'TRANSACTION {self.transaction_uuid} FAILED')
-        self.autocommit = True
-        self.transaction_uuid = None
+            raise
+        finally:
+            self.autocommit = True
+            self.transaction_uuid = None
 
 
 def autocommit(fn):
-- 
2.43.0


From dd33b99f7a7f1b949d9c5f2d01cb580c1468ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 18/95] fix: ContainerDb opens an existing database only once

---
 citrine/database/containerdb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 8e3386c..aba12c0 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -126,6 +126,9 @@ class ContainerDb(DB):
             conn.close()
             if not isinstance(storage, FileStorage):
                 db.close()
+        else:
+            # already a usable database, opening it twice would lock it
+            return
         super().__init__(
             storage=storage, pool_size=pool_size,
             pool_timeout=pool_timeout, cache_size=cache_size,
-- 
2.43.0


From 10d3e0482ea225f961e5fdfdd13d091f4d99c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:33 +0000
Subject: [PATCH 19/95] fix: ContainerDb opens fresh storages other than files,
 and in a multi-database

---
 citrine/database/containerdb.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index aba12c0..7a7a0f3 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -1,6 +1,7 @@
 import ZODB
 from ZODB import DB
 from ZODB.FileStorage import FileStorage
+from ZODB.MappingStorage import MappingStorage
 from ZODB.POSException import POSKeyError
 
 from citrine.connection.container_connection import ContainerConnection
@@ -98,6 +99,8 @@ class ContainerDb(DB):
              storage constructor if a path name or None is passed as
              the storage argument.
         """
+        if storage is None:
+            storage, storage_args = MappingStorage(**storage_args), {}
         try:
             super().__init__(
                 storage=storage, pool_size=pool_size,
@@ -112,8 +115,10 @@ class ContainerDb(DB):
                 **storage_args)
         except POSKeyError:
             # often happens if the db is newly created
-            if not isinstance(storage, FileStorage):
-                # closing if storage is FileStorage will make the db unopenable
+            if databases is not None:
+                databases.pop(database_name, None)
+            if isinstance(storage, str):
+                # closing a storage object would make the db unopenable
                 self.close()
             db = DB(storage)
             conn = db.open()
@@ -124,7 +129,7 @@ class ContainerDb(DB):
                     conn.root.container = Container.new()
                     tm.commit()
             conn.close()
-            if not isinstance(storage, FileStorage):
+            if isinstance(storage, str):
                 db.close()
         else:
             # already a usable database, opening it twice would lock it
-- 
2.43.0


From 03bdef635d609bd8de029499057cb6afa1d6ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 20/95] fix: ContainerDb.create honours its strict argument

---
 citrine/database/containerdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 7a7a0f3..9007aba 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -186,7 +186,7 @@ class ContainerDb(DB):
 
         :return: FileStorage object connecting back to the new ``ContainerDb``
         """
-        container = Container.new(capacity=capacity)
+        container = Container.new(capacity=capacity, strict=strict)
         storage = FileStorage(file_name, create=create, read_only=read_only,
                               stop=stop, quota=quota, pack_gc=pack_gc,
                               pack_keep_old=pack_keep_old, packer=packer,
-- 
2.43.0


From 087674cc62c3017f2fbd7a568c5f3f3382765fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 21/95] fix: reading several stored falsy values does not raise
 KeyError

---
 citrine/connection/container_connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index 145e4e6..d88131b 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -232,8 +232,9 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
         if not isinstance(ids, Iterable):
             raise IndexError(f'index selector must be string or iterable of ' +
                              f'strings, not {ids}')
+        ids = list(ids)
         results = [self.container.read(id) for id in ids]
-        if not any(results):
+        if not any(self.container.has(id) for id in ids):
             raise KeyError(f'No values found for any of {ids}')
         return results
 
-- 
2.43.0


From 598526c5657b9e82076d3f68fad827425db349fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 22/95] fix: ContainerConnection passes autocommit=False to its
 transaction manager

---
 citrine/connection/container_connection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index d88131b..b1ac4b6 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -159,6 +159,8 @@ class ContainerConnection(Connection, ContainerConnectionProperties):
 
         self.transaction_manager = (transaction_manager or
                                     ThreadTransactionManager())
+        if not autocommit:
+            self.transaction_manager.autocommit = False
         self.open(self.transaction_manager)
 
         self.___root___ = self.root
-- 
2.43.0


From 53b6b55126c9457b1ea9ee833890ed41dc785d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 23/95] fix: a ContainerDb opened at a fresh path can be closed

---
 citrine/database/containerdb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 9007aba..2195d64 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -118,8 +118,10 @@ class ContainerDb(DB):
             if databases is not None:
                 databases.pop(database_name, None)
             if isinstance(storage, str):
-                # closing a storage object would make the db unopenable
-                self.close()
+                # closing a storage object would make the db unopenable; the
+                # database itself is about to be opened again, and would
+                # never close after self.close()
+                self.storage.close()
             db = DB(storage)
             conn = db.open()
             with conn.transaction_manager as tm:
-- 
2.43.0


From 4f976aeb867d0eda7623eeef3322788df74a08c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:21 +0000
Subject: [PATCH 24/95] fix: GroupReadConnection lets per-database arguments
 override its defaults

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index d490d38..b4766ac 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -28,8 +28,8 @@ class GroupReadConnection:
         default = {'transaction_manager': transaction_manager}
         for db in dbs:
             connection_details = {
-                **connection_args.get(db.database_name, default),
-                **default
+                **default,
+                **connection_args.get(db.database_name, {})
             }
             self.connections += (db.open(**connection_details),)
 
-- 
2.43.0


From 3b637bdf20f55935a4d3f63b7e7340ddc5c84742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 25/95] fix: GroupReadConnection reports an id found in several
 databases

---
 citrine/connection/group_connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index b4766ac..b1d14e8 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -41,7 +41,7 @@ class GroupReadConnection:
         if not results:
             return None
         if len(results) > 1 and not multiple:
-            CitrineDuplicateIdError(id)
+            raise CitrineDuplicateIdError(id)
         return results[0] if not multiple else results
 
     async def __read(self, id: str, timeout: timedelta = None,
-- 
2.43.0


From 05ed74e9d2bfcd75512053c1ce02b831ac845adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 26/95] fix: GroupReadConnection can return multiple results

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index b1d14e8..82eca52 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -80,8 +80,8 @@ class GroupReadConnection:
             results = [res.result() for res in results
                        if res.result() is not None]
         else:
-            results = {key: val.results() for key, val in results.items()
-                       if val.results() is not None}
+            results = {key: val.result() for key, val in results.items()
+                       if val.result() is not None}
         return results
 
     async def __read_db(self, connection, id: str):
-- 
2.43.0


From 80caeda12ffe531fb90be4cdb5de717b87946c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 27/95] fix: GroupReadConnection can read with a timeout

---
 citrine/connection/group_connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/connection/group_connection.py b/citrine/connection/group_connection.py
index 82eca52..1d3e2a7 100644
--- a/citrine/connection/group_connection.py
+++ b/citrine/connection/group_connection.py
@@ -50,8 +50,8 @@ class GroupReadConnection:
         Reads from all connections and returns all located values.
         """
         if timeout:
-            with aiotimeout(timeout.seconds):
-                with TaskGroup() as tg:
+            async with aiotimeout(timeout.total_seconds()):
+                async with TaskGroup() as tg:
                     # if we're getting multiple back, it's good to give a link
                     # back to the relevant db
                     if multiple:
-- 
2.43.0


From 2f3127cf0e883abe26aef5692b1fa49243b6a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 28/95] fix: objects stay reachable after a DbContainer is
 expanded

---
 citrine/persistence.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/citrine/persistence.py b/citrine/persistence.py
index bdf47d6..eabc79d 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -119,10 +119,14 @@ class DbContainer(Persistent):
             raise ValueError(f'Cannot expand from {self.containers_size} ' +
                              f'containers to {new_size} containers, new size ' +
                              f'must be larger than existing size')
+        items = [item for container in self.containers.values()
+                 for item in container.items()]
         self.containers = PersistentMapping({
-            key: self.containers.get(key, PersistentMapping())
-            for key in range(new_size)
+            key: PersistentMapping() for key in range(new_size)
         })
+        # the location of an object depends on the number of containers
+        for id, obj in items:
+            self.write(id, obj)
 
     def has(self, id) -> bool:
         """
-- 
2.43.0


From 1b2f19697a3c22223e17e98d482dcfdbd5d60be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 29/95] fix: get_primes with a maximum yields the primes up to
 it

---
 citrine/storage/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/storage/utils.py b/citrine/storage/utils.py
index 38e4dd9..907f1d2 100644
--- a/citrine/storage/utils.py
+++ b/citrine/storage/utils.py
@@ -23,7 +23,7 @@ def get_primes(min=1, max=None):
     :return: prime integers
     """
     val = min
-    while not max or val > max:
+    while not max or val <= max:
         if is_prime(val):
             yield val
         val += 1
-- 
2.43.0


From 7bf6bad48fbf33b2cd8297b0ffa07ebc38073fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 30/95] fix: delete_dbmodule only deletes the module's own
 files for any spelling of its path

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 661010b..0508c81 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -5,7 +5,7 @@ citrine.cluster.DbModule object.
 from uuid import uuid4
 
 from os import mkdir, listdir, rmdir, remove
-from os.path import join, exists, split, isfile
+from os.path import abspath, join, exists, split, isfile
 from shutil import rmtree
 from persistent import Persistent
 from persistent.mapping import PersistentMapping
@@ -55,7 +55,7 @@ def delete_dbmodule(path: str, remove_empty: bool = True,
     if remove_all:
         rmtree(path)
         return
-    name = split(path)[1]
+    name = split(abspath(path))[1]
     affected = [join(path, file) for file in listdir(path)
                 if (isfile(join(path, file)) and file.startswith(name))
                     or file == '__init__.py']
-- 
2.43.0


From 2dc673d77ba55615632379ca6bb437898dbb0263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 31/95] fix: create_dbmodule can overwrite an existing module

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 0508c81..b018027 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -28,9 +28,12 @@ def create_dbmodule(path: str = '.', name: str = None, discoverable: bool = True
     """
     name = name if name else str(uuid4()).replace('-', '_')
     path = join(path, name)
-    if not overwrite and exists(path):
-        raise IOError(f'DbModule already exists at "{path}"')
-    mkdir(path)
+    if exists(path):
+        if not overwrite:
+            raise IOError(f'DbModule already exists at "{path}"')
+        delete_dbmodule(path, remove_empty=False)
+    else:
+        mkdir(path)
     init_path = join(path, '__init__.py')
     with open(init_path, 'w') as writer:
         if discoverable:
-- 
2.43.0


From cf956dd4c96b5e626fee6bfb2abc21d07047afe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 32/95] fix: generated db modules import a database class that
 exists

---
 citrine/cluster_tools/dbmodule/consts.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/citrine/cluster_tools/dbmodule/consts.py b/citrine/cluster_tools/dbmodule/consts.py
index 45e8742..d9535c9 100644
--- a/citrine/cluster_tools/dbmodule/consts.py
+++ b/citrine/cluster_tools/dbmodule/consts.py
@@ -6,10 +6,10 @@ DBMODULE_DISCOVERABLE_INIT = '''"""
 AUTOGENERATED INIT FILE FOR DBMODULE
 """
 from os.path import dirname, exists, join, split
-from citrine import CitrineDB
+from citrine.database.containerdb import ContainerDb
 DB_ID = split(dirname(__file__))[1]
 DB_PATH = join(dirname(__file__), DB_ID)
-db = lambda: CitrineDB(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else CitrineDB.new(DB_PATH, database_name=DB_ID)
+db = lambda: ContainerDb(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else ContainerDb.new(DB_PATH, database_name=DB_ID)
 DB_MODULE = True
 DISCOVERABLE = True
 '''
@@ -18,10 +18,10 @@ DBMODULE_UNDISCOVERABLE_INIT = '''"""
 AUTOGENERATED INIT FILE FOR DBMODULE
 """
 from os.path import dirname, exists, join, split
-from citrine import CitrineDB
+from citrine.database.containerdb import ContainerDb
 DB_ID = split(dirname(__file__))[1]
 DB_PATH = join(dirname(__file__), DB_ID)
-db = lambda: CitrineDB(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else CitrineDB.new(DB_PATH, database_name=DB_ID)
+db = lambda: ContainerDb(DB_PATH, database_name=DB_ID) if exists(DB_PATH) else ContainerDb.new(DB_PATH, database_name=DB_ID)
 DB_MODULE = True
 DISCOVERABLE = False
 '''
-- 
2.43.0


From c76c156c2598a104f2ec61ec3cfc75a14f4a646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 33/95] fix: DbModule.create passes overwrite on instead of
 marking the module undiscoverable

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index b018027..2d50bdd 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -178,7 +178,7 @@ class DbModule:
 
         The provided name will be given to the newly created database
         """
-        module_path = create_dbmodule(path, name, overwrite)
+        module_path = create_dbmodule(path, name, overwrite=overwrite)
         return DbModule(module_path)
 
     @classmethod
-- 
2.43.0


From cfc7fa0ef9127f1feeb85d75706341dc244b2209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 34/95] fix: DbModule.size reads the size of the module's
 container

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index 2d50bdd..aaf1862 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -143,7 +143,7 @@ class DbModule:
     @property
     def size(self):
         with self.db as connection:
-            return connection.size
+            return connection.container.size
 
     def __init__(self, path: str = '.'):
         self.path = path
-- 
2.43.0


From 76b9721226513da5d76fd32da3d75c105dcc1722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 35/95] fix: a destroyed db module leaves its group

---
 citrine/cluster_tools/dbmodule/dbgroup.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/citrine/cluster_tools/dbmodule/dbgroup.py b/citrine/cluster_tools/dbmodule/dbgroup.py
index d0933e8..b13ebda 100644
--- a/citrine/cluster_tools/dbmodule/dbgroup.py
+++ b/citrine/cluster_tools/dbmodule/dbgroup.py
@@ -77,6 +77,7 @@ class DbGroup:
         :param name: The name of the database to be destroyed
         """
         DbModule.destroy(join(self.root, name))
+        self.modules.pop(name, None)
 
     @staticmethod
     def discover(root):
-- 
2.43.0


From 386f026ece257c1ddce9f8fcc2b71c6a233efb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 36/95] fix: ContainerClient.connect honours its strict
 argument

---
 citrine/client/container_client.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/citrine/client/container_client.py b/citrine/client/container_client.py
index 058e180..e3146ab 100644
--- a/citrine/client/container_client.py
+++ b/citrine/client/container_client.py
@@ -179,8 +179,17 @@ class ContainerClient(ContainerDb):
             # For tests:
             _client_factory=_client_factory)
 
+        # If there is no container yet, create a new Container; loading the
+        # database would otherwise create one with the default settings
+        connection = DB(client).open()
+        if not getattr(connection.root, 'container', None):
+            with connection.transaction_manager as tm:
+                connection.root.container = Container.new(strict=strict)
+                tm.commit()
+        connection.close()
+
         # Link to a local ContainerDb
-        client = cls.load(client, pool_size=pool_size,
+        return cls.load(client, pool_size=pool_size,
             pool_timeout=pool_timeout, cache_size=cache_size,
             cache_size_bytes=cache_size_bytes,
             historical_pool_size=historical_pool_size,
@@ -189,11 +198,3 @@ class ContainerClient(ContainerDb):
             historical_timeout=historical_timeout, database_name=database_name,
             databases=databases, xrefs=xrefs,
             large_record_size=large_record_size)
-
-        # If not connection.container and create==True, create a new Container
-        with client as connection:
-            if not getattr(connection.root, 'container', None):
-                with connection.transaction_manager as tm:
-                    connection.root.container = Container.new(strict=strict)
-                    tm.commit()
-        return client
-- 
2.43.0


From 50295765b84790f0a3ad29529283cca1ec296f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:46 +0000
Subject: [PATCH 37/95] fix: properties defined after Object accept objects
 again

---
 activitystreams/properties.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index e6e3257..1be7697 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -19,6 +19,10 @@ from jsonld.tools import SetterValidator
 from activitystreams.models import Object, Link, Collection, \
     CollectionPage, ACTIVITYSTREAMS_NS
 
+# the "object" property below has the same name as the Object type; properties
+# defined after it have to use this name to refer to the type
+ObjectModel = Object
+
 logger = logging.getLogger(__name__)
 logger.setLevel(logging.INFO)
 
@@ -735,7 +739,7 @@ class Preview(ActivityStreamsProperty):
 
     @preview.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(ObjectModel, Link)).check
     def preview(self, val):
         self.___preview___ = val
 
@@ -759,7 +763,7 @@ class Result(ActivityStreamsProperty):
 
     @result.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(ObjectModel, Link)).check
     def result(self, val):
         self.___result___ = val
 
@@ -807,7 +811,7 @@ class Tag(ActivityStreamsProperty):
 
     @tag.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link, dict)).check
+    @SetterValidator(types=(ObjectModel, Link, dict)).check
     def tag(self, val):
         self.___tag___ = val
 
@@ -834,7 +838,7 @@ class Target(ActivityStreamsProperty):
 
     @target.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(ObjectModel, Link)).check
     def target(self, val):
         self.___target___ = val
 
@@ -857,7 +861,7 @@ class To(ActivityStreamsProperty):
 
     @to.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link)).check
+    @SetterValidator(types=(ObjectModel, Link)).check
     def to(self, val):
         self.___to___ = val
 
@@ -1340,7 +1344,7 @@ class Subject(ActivityStreamsProperty):
 
     @subject.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link), functional=True).check
+    @SetterValidator(types=(ObjectModel, Link), functional=True).check
     def subject(self, val):
         self.___subject___ = val
 
@@ -1356,7 +1360,7 @@ class Relationship(ActivityStreamsProperty):
         return getattr(self, '___relationship___', None)
 
     @relationship.setter
-    @SetterValidator(types=(Object, str)).check
+    @SetterValidator(types=(ObjectModel, str)).check
     def relationship(self, val):
         self.___relationship___ = val
 
@@ -1372,7 +1376,7 @@ class Describes(ActivityStreamsProperty):
         return getattr(self, '___describes___', None)
 
     @describes.setter
-    @SetterValidator(types=(Object,), functional=True).check
+    @SetterValidator(types=(ObjectModel,), functional=True).check
     def describes(self, val):
         self.___describes___ = val
 
@@ -1388,7 +1392,7 @@ class FormerType(ActivityStreamsProperty):
         return getattr(self, '___formerType___', None)
 
     @formerType.setter
-    @SetterValidator(types=(Object,)).check
+    @SetterValidator(types=(ObjectModel,)).check
     def formerType(self, val):
         self.___formerType___ = val
 
-- 
2.43.0


From 453557c8a702cc58bd0bb5558298d342828433a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 38/95] fix: replies may be a link, as every other
 object-valued property

---
 activitystreams/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index 1be7697..f7a8a1f 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -786,7 +786,7 @@ class Replies(ActivityStreamsProperty):
 
     @replies.setter
     @Link.from_str
-    @SetterValidator(types=(Collection,), functional=True).check
+    @SetterValidator(types=(Collection, Link), functional=True).check
     def replies(self, val):
         self.___replies___ = val
 
-- 
2.43.0


From 79afe7f9976c1afe66c59cb578e2467893c3e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 39/95] fix: the Object and Link types keep their name in a
 package

---
 activitystreams/models.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 0412f1c..ec24a95 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -41,8 +41,10 @@ class Object(ApplicationActivityJson):
 
     @classmethod
     def __get_namespace__(cls):
-        # provides namespacing logic for ALL derived children
-        return f'{ACTIVITYSTREAMS_NS}#{cls.type}'
+        # provides namespacing logic for ALL derived children; the class a
+        # package links the type property to has no type string of its own
+        type = cls.type if isinstance(cls.type, str) else cls.__name__
+        return f'{ACTIVITYSTREAMS_NS}#{type}'
 
     def __init__(self, id=None, type=None, attachment=None, attributedTo=None,
                  audience=None, content=None, context=None, name=None,
@@ -55,7 +57,7 @@ class Object(ApplicationActivityJson):
                  **kwargs):
         ApplicationActivityJson.__init__(self, acontext=acontext)
         self.id = id
-        self.type = getattr(self, 'type', type)
+        self.type = getattr(self, 'type', None) or type
         self.attachment = attachment
         self.attributedTo = attributedTo
         self.audience = audience
@@ -98,8 +100,10 @@ class Link(ApplicationActivityJson):
 
     @classmethod
     def __get_namespace__(cls):
-        # provides namespacing logic for ALL derived children
-        return f'{ACTIVITYSTREAMS_NS}#{cls.type}'
+        # provides namespacing logic for ALL derived children; the class a
+        # package links the type property to has no type string of its own
+        type = cls.type if isinstance(cls.type, str) else cls.__name__
+        return f'{ACTIVITYSTREAMS_NS}#{type}'
 
     def __init__(self, href=None, rel=None, mediaType=None, name=None,
                  hreflang=None, height=None, width=None, preview=None,
@@ -119,7 +123,7 @@ class Link(ApplicationActivityJson):
         self.width = width
         self.preview = preview
         self.context = context
-        self.type = getattr(self, 'type', type)
+        self.type = getattr(self, 'type', None) or type
 
     @classmethod
     def get(cls, data, *args, **kwargs):
-- 
2.43.0


From 6eeacf5cb279b890f4c0fb1fb9aefb728b82ea25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 40/95] fix: a Link keeps its id and hreflang

---
 activitystreams/models.py     | 3 ++-
 activitystreams/properties.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index ec24a95..e8bc1fc 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -108,12 +108,13 @@ class Link(ApplicationActivityJson):
     def __init__(self, href=None, rel=None, mediaType=None, name=None,
                  hreflang=None, height=None, width=None, preview=None,
                  context=None, type=None,
-                 acontext=ACTIVITYSTREAMS_NS,
+                 acontext=ACTIVITYSTREAMS_NS, id=None,
                  **kwargs):
         # grants the ability to access all @property objects associated with the
         # model via __properties__ on instantiated objects and
         # __get_properties__ on classes
         ApplicationActivityJson.__init__(self, acontext=acontext)
+        self.id = id
         self.href = href
         self.rel = rel
         self.mediaType = mediaType
diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index f7a8a1f..c90786d 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1030,7 +1030,7 @@ class HrefLang(ActivityStreamsProperty):
     @hreflang.setter
     @SetterValidator(types=(str,), functional=True).check
     def hreflang(self, val):
-        self.__hrefLang = val
+        self.___hreflang___ = val
 
 
 class PartOf(ActivityStreamsProperty):
-- 
2.43.0


From f98a7dcfcc39095984d2985fc05980e1c23fa9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 41/95] fix: a Tombstone keeps its formerType and reads its
 deletion time

---
 activitystreams/models.py     | 5 +++--
 activitystreams/properties.py | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index e8bc1fc..1f9ed4b 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -922,9 +922,10 @@ class Tombstone(Object):
     """
     type = "Tombstone"
 
-    def __init__(self, id, former_type=None, deleted=None, **kwargs):
+    def __init__(self, id, former_type=None, deleted=None, formerType=None,
+                 **kwargs):
         super().__init__(id, **kwargs)
-        self.former_type = former_type
+        self.formerType = former_type if formerType is None else formerType
         self.deleted = deleted
 
 
diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index c90786d..c592243 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -1392,7 +1392,7 @@ class FormerType(ActivityStreamsProperty):
         return getattr(self, '___formerType___', None)
 
     @formerType.setter
-    @SetterValidator(types=(ObjectModel,)).check
+    @SetterValidator(types=(ObjectModel, str)).check
     def formerType(self, val):
         self.___formerType___ = val
 
@@ -1415,7 +1415,7 @@ class Deleted(ActivityStreamsProperty):
         return val
 
     @deleted.setter
-    @SetterValidator(types=(datetime,), functional=True,
+    @SetterValidator(types=(datetime, str), functional=True,
                      additional=(is_activity_datetime,)).check
     def deleted(self, val):
-        self.___deleted___ = val
+        self.___deleted___ = parse_activitystream_datetime(val)
-- 
2.43.0


From 14562ed766ac6058fb78cbe501b4b38c120e3068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 42/95] fix: closed reads a time

---
 activitystreams/properties.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/activitystreams/properties.py b/activitystreams/properties.py
index c592243..d7db886 100644
--- a/activitystreams/properties.py
+++ b/activitystreams/properties.py
@@ -617,12 +617,22 @@ class Closed(ActivityStreamsProperty):
         val = getattr(self, '___closed___', None)
         if isinstance(val, datetime):
             return datetime_str(val)
+        if isinstance(val, list):
+            return [datetime_str(v) if isinstance(v, datetime) else v
+                    for v in val]
         return val
 
     @closed.setter
     @Link.from_str
-    @SetterValidator(types=(Object, Link, datetime, bool)).check
+    @SetterValidator(types=(Object, Link, datetime, bool, str),
+                     additional=(is_activity_datetime,)).check
     def closed(self, val):
+        # anything a Link is not made of can only be a time
+        if isinstance(val, list):
+            val = [parse_activitystream_datetime(v) if isinstance(v, str)
+                   else v for v in val]
+        elif isinstance(val, str):
+            val = parse_activitystream_datetime(val)
         self.___closed___ = val
 
 
-- 
2.43.0


From 3cd6814a582646e5b7b11825155f1a22194e339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 43/95] fix: collections keep, count and iterate their items

---
 activitystreams/models.py | 79 ++++++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 34 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 1f9ed4b..bd0b240 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -340,7 +340,8 @@ class Collection(Object):
                  updated=None, url=None, to=None, bto=None, cc=None, bcc=None,
                  mediaType=None, duration=None, totalItems=None, current=None,
                  first=None, last=None, items=None,
-                 acontext='https://www.w3.org/ns/activitystreams', **kwargs):
+                 acontext='https://www.w3.org/ns/activitystreams',
+                 orderedItems=None, unorderedItems=None, **kwargs):
         super().__init__(id=id, type=type, attachment=attachment,
                          attributedTo=attributedTo, audience=audience,
                          content=content, context=context, name=name,
@@ -357,19 +358,31 @@ class Collection(Object):
         self.last = last
         # some inheritors may override this with more specific orderings,
         # they should be given precedence
-        self.items = getattr(self, 'items', items)
+        preset = getattr(self, 'items', None)
+        items = items if preset is None else preset
+        self.items = items
+        self.orderedItems = orderedItems
+        self.unorderedItems = unorderedItems
 
         # supplied value takes priority, followed by size of items if they are
-        # sizeable, defaulting to 0 if not
-        self.totalItems = totalItems if totalItems else (
-            0 if not isinstance(self.items, Sized) else len(self.items)
-        )
+        # sizeable (a reference to items or a single item is not), defaulting
+        # to 0 if not
+        if totalItems is None:
+            totalItems = sum(
+                len(members) for members in (items, orderedItems,
+                                             unorderedItems)
+                if isinstance(members, Sized)
+                and not isinstance(members, (str, dict)))
+        self.totalItems = totalItems
 
     def __iter__(self):
-        if not self.items:
-            yield
-        for item in self.items:
-            yield item
+        for members in (self.items, self.orderedItems, self.unorderedItems):
+            if members is None:
+                continue
+            if isinstance(members, (list, tuple, set)):
+                yield from members
+            else:
+                yield members
 
 
 class OrderedCollection(Collection):
@@ -400,8 +413,8 @@ class OrderedCollection(Collection):
                          cc=cc, bcc=bcc, mediaType=mediaType, items=items,
                          duration=duration, totalItems=totalItems,
                          current=current, first=first, last=last,
-                         acontext=acontext, **kwargs)
-        self.orderedItems = orderedItems
+                         orderedItems=orderedItems, acontext=acontext,
+                         **kwargs)
 
 
 class CollectionPage(Collection):
@@ -458,28 +471,26 @@ class OrderedCollectionPage(OrderedCollection, CollectionPage):
                  first=None, last=None, items=None, partOf=None, next=None,
                  prev=None, startIndex=None, orderedItems=None,
                  acontext='https://www.w3.org/ns/activitystreams', **kwargs):
-        # OrderedCollection has no special handling in its init that
-        # CollectionPage doesn't already do
-        OrderedCollection.__init__(self, orderedItems=orderedItems)
-        CollectionPage.__init__(self, id=id, type=type,
-                                attachment=attachment,
-                                attributedTo=attributedTo,
-                                audience=audience,
-                                content=content, context=context,
-                                name=name,
-                                endTime=endTime, generator=generator,
-                                icon=icon,
-                                image=image, inReplyTo=inReplyTo,
-                                location=location, preview=preview,
-                                published=published, replies=replies,
-                                startTime=startTime, summary=summary,
-                                tag=tag, updated=updated, url=url, to=to,
-                                bto=bto,
-                                cc=cc, bcc=bcc, mediaType=mediaType,
-                                duration=duration, totalItems=totalItems,
-                                current=current, first=first, last=last,
-                                partOf=partOf, next=next, prev=prev,
-                                acontext=acontext)
+        OrderedCollection.__init__(self, id=id, type=type,
+                                   attachment=attachment,
+                                   attributedTo=attributedTo,
+                                   audience=audience,
+                                   content=content, context=context,
+                                   name=name,
+                                   endTime=endTime, generator=generator,
+                                   icon=icon, image=image,
+                                   inReplyTo=inReplyTo,
+                                   location=location, preview=preview,
+                                   published=published, replies=replies,
+                                   startTime=startTime, summary=summary,
+                                   tag=tag, updated=updated, url=url, to=to,
+                                   bto=bto, cc=cc, bcc=bcc,
+                                   mediaType=mediaType, duration=duration,
+                                   totalItems=totalItems, current=current,
+                                   first=first, last=last, items=items,
+                                   orderedItems=orderedItems,
+                                   partOf=partOf, next=next, prev=prev,
+                                   acontext=acontext, **kwargs)
         self.startIndex = startIndex if startIndex else 0
 
 
-- 
2.43.0


From 527861fbd404716ec0404c287860eef2d06fec6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:18 +0000
Subject: [PATCH 44/95] fix: booleans and nulls stay booleans and nulls in the
 output

---
 jsonld/jsonld.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 447b9a7..1582c36 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -46,6 +46,8 @@ class PropertyJsonLD(PropertyAwareObject):
         str: lambda val, *args, **kwargs: val,
         int: lambda val, *args, **kwargs: val,
         float: lambda val, *args, **kwargs: val,
+        bool: lambda val, *args, **kwargs: val,
+        type(None): lambda val, *args, **kwargs: val,
         list: lambda val, fn, *args, **kwargs: [fn(item) for item in val],
         set: lambda val, fn, *args, **kwargs: [fn(item) for item in val],
         tuple: lambda val, fn, *args, **kwargs: [fn(item) for item in val],
-- 
2.43.0


From d1d6f8f6236504e00ba1cce871133e3432609f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:23 +0000
Subject: [PATCH 45/95] fix: nested objects keep their context property in the
 output

---
 jsonld/jsonld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 1582c36..83d9a77 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -57,7 +57,7 @@ class PropertyJsonLD(PropertyAwareObject):
 
     def __handler(self, value):
         if isinstance(value, PropertyJsonLD):
-            return value.data(exclude='acontext')
+            return value.data(exclude=('acontext',))
         if type(value) in self.__data_handler_fns.keys():
             return self.__data_handler_fns[type(value)](value, self.__handler)
         if isinstance(value, Iterable):
-- 
2.43.0


From 68a5b3b0d9bf4802315ce5f387ff8fc7d54c252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 46/95] fix: include_none leaves the namespace out of the
 output

---
 jsonld/jsonld.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 83d9a77..5882021 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -88,8 +88,10 @@ class PropertyJsonLD(PropertyAwareObject):
                 # change name of property, if provided in mapping
                 rename.get(prop, prop): self.__handler(getattr(self, prop, None))
                 for prop in self.__properties__
+                # the namespace is not data, not even when None is
+                if prop != '__namespace__'
                 # if include_null is True or the property is not None
-                if (include_none or getattr(self, prop) is not None)
+                and (include_none or getattr(self, prop) is not None)
                    # AND if including everything OR if specifically included
                    and (not include or prop in include)
                    # AND if excluding nothing OR if not specifically excluded
-- 
2.43.0


From ab31ded391837eda8ecc3bff4b4289864cbeb569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 47/95] fix: the default context can be loaded

---
 jsonld/engine/json_input.py | 2 +-
 jsonld/utils.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonld/engine/json_input.py b/jsonld/engine/json_input.py
index a8714a5..a33606e 100644
--- a/jsonld/engine/json_input.py
+++ b/jsonld/engine/json_input.py
@@ -107,7 +107,7 @@ class PropertyJsonIntake:
         """
         # convert to dict and expand
         data = json.loads(data) if isinstance(data, str) else data.copy()
-        context = data.get('@context', DEFAULT_CONTEXT)
+        context = data.get('@context', None) or DEFAULT_CONTEXT
         if not data.get('@context', None):
             logger.debug(f"No '@context' provided, using '{DEFAULT_CONTEXT}'")
             data.update({'@context': DEFAULT_CONTEXT})
diff --git a/jsonld/utils.py b/jsonld/utils.py
index a852f12..77eb3f3 100644
--- a/jsonld/utils.py
+++ b/jsonld/utils.py
@@ -33,7 +33,7 @@ JSON_LD_KEYMAP = {
 }
 
 DEFAULT_TYPE = 'https://www.w3.org/ns/activitystreams#Object'
-DEFAULT_CONTEXT = "http://www.w3.org/ns/activitystreams#"
+DEFAULT_CONTEXT = "https://www.w3.org/ns/activitystreams"
 
 DEFAULT_HEADERS = {
     "Accept": "application/ld+json, application/activity+json, application/json"
-- 
2.43.0


From b1740bf81bca5b536dead5fc57d3619a467721be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 48/95] fix: data of an unknown type is refused with a
 ValueError

---
 jsonld/engine/json_input.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonld/engine/json_input.py b/jsonld/engine/json_input.py
index a33606e..e0ae817 100644
--- a/jsonld/engine/json_input.py
+++ b/jsonld/engine/json_input.py
@@ -62,8 +62,6 @@ class PropertyJsonIntake:
 
         # gets the class for the object that needs to be created from the
         object_class = self.class_registry.get(class_type)
-        if not object_class:
-            ValueError(f'Provided data has invalid or missing "@type"')
         return object_class
 
     def _unpack_objects(self, data, context):
@@ -112,6 +110,8 @@ class PropertyJsonIntake:
             logger.debug(f"No '@context' provided, using '{DEFAULT_CONTEXT}'")
             data.update({'@context': DEFAULT_CONTEXT})
         object_class = self._get_object_class(data)
+        if not object_class:
+            raise ValueError('Provided data has invalid or missing "@type"')
 
         # only include values from the json that are properties of the class
         # unpack data structures and populate None values where appropriate
-- 
2.43.0


From 3d8c9c72a832fa9fe9ea5fafe77d1ef3d9297d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 49/95] fix: an engine is made from several packages

---
 jsonld/engine/jsonld_engine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonld/engine/jsonld_engine.py b/jsonld/engine/jsonld_engine.py
index 8f1eadd..3f0c05e 100644
--- a/jsonld/engine/jsonld_engine.py
+++ b/jsonld/engine/jsonld_engine.py
@@ -17,7 +17,8 @@ class JsonLdEngine(PropertyJsonIntake):
         :param packages: the packages to load into the engine
         """
         # keeps a copy of all the packages provided
-        packages = (packages,) if packages is not Iterable else packages
+        packages = (packages,) if not isinstance(packages, Iterable) \
+            else tuple(packages)
         self.___packages___ = packages
         if not self.packages:
             raise ValueError(f'No packages provided!')
-- 
2.43.0


From 86dce4405bfb07444f38bf05e04308fa4bc31e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 50/95] fix: packages can be added to and taken from an engine

---
 jsonld/engine/jsonld_engine.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/jsonld/engine/jsonld_engine.py b/jsonld/engine/jsonld_engine.py
index 3f0c05e..e00da8e 100644
--- a/jsonld/engine/jsonld_engine.py
+++ b/jsonld/engine/jsonld_engine.py
@@ -91,7 +91,7 @@ class JsonLdEngine(PropertyJsonIntake):
 
     def __add__(self, other):
         if isinstance(other, JsonLdPackage):
-            return JsonLdEngine(self.packages + other)
+            return JsonLdEngine(self.packages + (other,))
 
         if isinstance(other, JsonLdEngine):
             # combine packages from both engines with the second engine's
@@ -103,10 +103,15 @@ class JsonLdEngine(PropertyJsonIntake):
 
     def __sub__(self, other):
         if isinstance(other, JsonLdPackage):
-            return JsonLdEngine(self.packages - other)
-
-        if isinstance(other, JsonLdEngine):
-            return JsonLdEngine(self.packages - other.packages)
+            removed = (other.namespace,)
+        elif isinstance(other, JsonLdEngine):
+            removed = tuple(pkg.namespace for pkg in other.packages)
+        else:
+            removed = None
+
+        if removed is not None:
+            return JsonLdEngine(tuple(pkg for pkg in self.packages
+                                      if pkg.namespace not in removed))
 
         raise TypeError(f'Can only subtract "JsonLdPackage" and ' +
                         f'"JsonLdEngine" from JsonLdEngine objects')
-- 
2.43.0


From e223da937b47e7f94c93631c7851bec8e697ddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 51/95] fix: combined packages keep their property mapping,
 subtracted ones their own properties

---
 jsonld/package.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index d77b823..692bda8 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -31,7 +31,7 @@ class JsonLdPackage(ClassCloner):
         self.property_ref = self.clone_classes(properties)
         self.properties = tuple(self.property_ref.values())
         # property_mapping connects properties to classes on instantiation
-        self.property_mapping = property_mapping
+        self.property_mapping = property_mapping if property_mapping else {}
 
         self.__ref = {obj.__get_namespace__(): obj
                       for obj in self.objects + self.properties}
@@ -157,7 +157,9 @@ class JsonLdPackage(ClassCloner):
         properties = kept_props + other.properties
 
         return JsonLdPackage(namespace=self.namespace, objects=objects,
-                             properties=properties)
+                             properties=properties,
+                             property_mapping={**self.property_mapping,
+                                               **other.property_mapping})
 
     def __sub__(self, other):
         if not isinstance(other, JsonLdPackage):
@@ -167,9 +169,16 @@ class JsonLdPackage(ClassCloner):
                               if cls.__get_namespace__() not in removed_obj_ns)
 
         removed_prp_ns = [cls.__get_namespace__() for cls in other.properties]
-        remaining_prps = tuple(prp for prp in other.properties
+        remaining_prps = tuple(prp for prp in self.properties
                                if prp.__get_namespace__() not in removed_prp_ns)
 
+        # what is left of the classes keeps what is left of their properties
+        remaining_map = {
+            obj_ns: tuple(ns for ns in prp_ns if ns not in removed_prp_ns)
+            for obj_ns, prp_ns in self.property_mapping.items()
+            if obj_ns not in removed_obj_ns}
+
         return JsonLdPackage(namespace=self.namespace,
                              objects=remaining_objs,
-                             properties=remaining_prps)
+                             properties=remaining_prps,
+                             property_mapping=remaining_map)
-- 
2.43.0


From 7f6e089860c41b15132bbea7f5c9073e55915ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 52/95] fix: durations of zero, below zero and with fractions
 are written in full

---
 jsonld/tools/datetime.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsonld/tools/datetime.py b/jsonld/tools/datetime.py
index a140ecf..c065737 100644
--- a/jsonld/tools/datetime.py
+++ b/jsonld/tools/datetime.py
@@ -1,5 +1,5 @@
 import re
-from datetime import datetime
+from datetime import datetime, timedelta
 from types import NoneType
 
 AS2_TIME = re.compile(
@@ -49,12 +49,17 @@ def timedelta_str(obj) -> str:
     :param obj: timedelta to convert
     :return: "P<years>Y<months>M<days>DT<hours>H<minutes>M<seconds>S" string
     """
+    # a negative duration is the positive one with a sign in front
+    sign = '-' if obj < timedelta(0) else ''
+    obj = abs(obj)
     years = obj.days // 365
     months = (obj.days % 365) // 30
     days = (obj.days % 365) % 30
     hours = obj.seconds // 3600
     minutes = (obj.seconds % 3600) // 60
     seconds = (obj.seconds % 3600) % 60
+    if obj.microseconds:
+        seconds = f'{seconds}.{obj.microseconds:06d}'.rstrip('0')
     # P<years>Y<months>M<days>D
     ymd = 'P' + (f'{years}Y' if years else '') + \
           (f'{months}M' if months else '') + \
@@ -63,9 +68,12 @@ def timedelta_str(obj) -> str:
     hms = 'T' + (f'{hours}H' if hours else '') + \
           (f'{minutes}M' if minutes else '') + \
           (f'{seconds}S' if seconds else '')
+    # a period has at least one part
+    if ymd == 'P' and hms == 'T':
+        hms = 'T0S'
     # The entire HMS section is optional, however we ALWAYS need at least the
     # "P" from the ymd section (indicates this is a "period")
-    return f'{ymd}{hms if len(hms) > 1 else ""}'
+    return f'{sign}{ymd}{hms if len(hms) > 1 else ""}'
 
 
 def datetime_str(obj: datetime) -> str:
-- 
2.43.0


From 0dd193b55ccaa17cf1ed02174c4b4284b3246505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 53/95] fix: times are written with their offset and fraction

---
 jsonld/tools/datetime.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/jsonld/tools/datetime.py b/jsonld/tools/datetime.py
index c065737..0f50a69 100644
--- a/jsonld/tools/datetime.py
+++ b/jsonld/tools/datetime.py
@@ -80,8 +80,10 @@ def datetime_str(obj: datetime) -> str:
     """
     Converts a datetime object to ISO 8601 format
     :param obj: the datetime object to convert
-    :return: "YYYY-mm-ddTHH:MM:SSZ" string
+    :return: "YYYY-mm-ddTHH:MM:SS" string, with the fraction of a second if
+    there is one, then "Z" or the offset of the timezone
     """
-    # TODO: implement handling for timezone-aware datetimes
-    # TODO: implement millisecond handling
-    return obj.strftime('%Y-%m-%dT%H:%M:%SZ')
\ No newline at end of file
+    text = obj.isoformat()
+    if obj.utcoffset():
+        return text
+    return f'{obj.replace(tzinfo=None).isoformat()}Z'
-- 
2.43.0


From be1eea30088342fad29138d75c57cd5f5f96e7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 54/95] fix: every character of a url's host is checked, not
 only the first

---
 jsonld/docloader.py    | 2 +-
 jsonld/engine/utils.py | 2 +-
 jsonld/tools/url.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index 75b12cd..cd27967 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -64,7 +64,7 @@ class RequestsJsonLoader:
         if not pieces.netloc:
             raise ValueError('Cannot dereference url without body')
         # urls can only have certain characters
-        if re.match(JSON_LD_URL_REGEX, pieces.netloc):
+        if re.search(JSON_LD_URL_REGEX, pieces.netloc):
             raise ValueError('url cannot contain characters outside of' +
                              'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."' +
                              f';\ngot: "{url}" ')
diff --git a/jsonld/engine/utils.py b/jsonld/engine/utils.py
index 0535a77..ae14d75 100644
--- a/jsonld/engine/utils.py
+++ b/jsonld/engine/utils.py
@@ -35,7 +35,7 @@ def validate_url(url, secure: bool = False):
         logger.debug('Cannot dereference url without body')
         return False
     # urls can only have certain characters
-    if re.match(VALID_URL_REGEX, pieces.netloc):
+    if re.search(VALID_URL_REGEX, pieces.netloc):
         logger.debug('url cannot contain characters outside of' +
                     'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."')
         return False
diff --git a/jsonld/tools/url.py b/jsonld/tools/url.py
index 00f4cce..b053ed4 100644
--- a/jsonld/tools/url.py
+++ b/jsonld/tools/url.py
@@ -49,7 +49,7 @@ def validate_url(url, secure: bool = False, **kwargs):
         logger.debug('Cannot dereference url without body')
         return False
     # urls can only have certain characters
-    if re.match(VALID_URL_REGEX, pieces.netloc):
+    if re.search(VALID_URL_REGEX, pieces.netloc):
         logger.debug('url cannot contain characters outside of' +
                     'alphanumeric (a-Z, 0-9), "-", "_", ":", and "."')
         return False
-- 
2.43.0


From 348e7172491962aa82399817b481de2ba04cbbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 55/95] fix: validate_url answers False for what cannot be
 parsed

---
 jsonld/tools/url.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsonld/tools/url.py b/jsonld/tools/url.py
index b053ed4..2b6c111 100644
--- a/jsonld/tools/url.py
+++ b/jsonld/tools/url.py
@@ -38,7 +38,11 @@ def validate_url(url, secure: bool = False, **kwargs):
     :param secure: whether to accept only HTTPS urls
     :return: True if valid, False otherwise
     """
-    pieces = parse.urlparse(url)
+    try:
+        pieces = parse.urlparse(url)
+    except ValueError:
+        logger.debug('Cannot dereference url that cannot be parsed')
+        return False
     if not pieces.scheme or pieces.scheme not in ['http', 'https']:
         logger.debug('Cannot dereference url without valid scheme; add ' +
                     f'''{'"http://" or' if not secure else ''} ''' +
-- 
2.43.0


From 364e8c432f7e2cf1fbd792eebf29f69e16945161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 56/95] fix: converting an object does not rename the classes
 of the package

---
 jsonld/kamino.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 0bca12c..8348582 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -112,6 +112,9 @@ class ClassCloner:
                  for name in getattr(obj, '__properties__', ())}
         # merge both for simplicity and to avoid setting the same values twice
         data = {**props, **attrs}
+        # the namespace belongs to the class, the object takes on the one of
+        # its new class
+        data.pop('__namespace__', None)
         obj.__class__ = new_class
         obj.__properties__ = obj.__get_properties__(refresh=True)
         for name, val in data.items():
-- 
2.43.0


From 14309ddffa994940b41b86cc46af72b731046cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 57/95] fix: a subclass lists its own properties, not its
 parent's

---
 jsonld/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index dd55f04..2c0058e 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -321,8 +321,8 @@ class PropertyAwareObject(NamespacedObject):
         Creates a list of all @property objects defined and inherited in
         this class
         """
-        if not hasattr(cls, '__properties__') or refresh:
-            # we cache a copy
+        if '__properties__' not in cls.__dict__ or refresh:
+            # we cache a copy, the one of a parent lacks our own properties
             cls.__properties__ = tuple(set(chain(key for kls in cls.mro()
                                              for key, value in
                                              kls.__dict__.items()
-- 
2.43.0


From 7543e8571148a197221788b1ae69c7f3a850dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 58/95] fix: objects have the context property

---
 activitystreams/package.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/activitystreams/package.py b/activitystreams/package.py
index 79acb17..00856d9 100644
--- a/activitystreams/package.py
+++ b/activitystreams/package.py
@@ -134,6 +134,7 @@ property_mapping = {
                                         properties.AttributedTo.__get_namespace__(),
                                         properties.Audience.__get_namespace__(),
                                         properties.Content.__get_namespace__(),
+                                        properties.Context.__get_namespace__(),
                                         properties.Name.__get_namespace__(),
                                         properties.EndTime.__get_namespace__(),
                                         properties.Generator.__get_namespace__(),
-- 
2.43.0


From 38642e05b0df2fcb42afb957877d43b52fcbf498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:36 +0000
Subject: [PATCH 59/95] fix: an object in a list is converted to the classes of
 the package like a single one

---
 jsonld/kamino.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 8348582..c7a4fd4 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -149,10 +149,14 @@ class ClassCloner:
         """
         def get_wrapper(fn):
             def wrap_return(*args, **kwargs):
-                if (val := fn(*args, **kwargs)).__class__ not in self.object_ref.keys():
-                    return val
-                with val.switch_context(CLASS_CHANGE_CONTEXT):
-                    return self.change_class(val, self.object_ref.get(val.__class__))
+                val = fn(*args, **kwargs)
+                # the members of a list are returned values as well
+                for item in val if isinstance(val, list) else (val,):
+                    if item.__class__ in self.object_ref.keys():
+                        with item.switch_context(CLASS_CHANGE_CONTEXT):
+                            self.change_class(
+                                item, self.object_ref.get(item.__class__))
+                return val
             return wrap_return
 
         def set_wrapper(fn):
-- 
2.43.0


From f0d29dcf2d34c7afc981543633d462156b888203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 60/95] fix: a property redefined in a combined package reaches
 the subclasses too

---
 jsonld/kamino.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index c7a4fd4..5e06522 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -187,6 +187,11 @@ class ClassCloner:
             if not isinstance(prop, property):
                 # failsafe in case something unexpected comes in!
                 continue
+            owner = next((k for k in cls.mro() if name in vars(k)), cls)
+            if vars(owner).get('__jsonld_package__') is self:
+                # a parent cloned before this one has wrapped it already, and
+                # a copy would hide what is linked to that parent later
+                continue
             wrapped = property(fget=get_wrapper(prop.fget),
                                fset=set_wrapper(prop.fset),
                                fdel=prop.fdel, doc=prop.__doc__)
-- 
2.43.0


From 0533a97dd4060f173dbe8a22155c962a24804139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 61/95] fix: is_activity_datetime accepted times with something
 before or a newline after them

---
 jsonld/tools/datetime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsonld/tools/datetime.py b/jsonld/tools/datetime.py
index 0f50a69..eb0e4d6 100644
--- a/jsonld/tools/datetime.py
+++ b/jsonld/tools/datetime.py
@@ -6,7 +6,7 @@ AS2_TIME = re.compile(
     r'(0\d|1\d|2[0123]):[012345]\d(:([012345]\d|60))?[\.\-+Z]')
 AS2_TZ = re.compile(r'(Z?[\-+](0\d|1\d|2[0123]):[012345]\d)$')
 
-AS2_DATE_TIME = re.compile(r'\d{4}-' +  # year
+AS2_DATE_TIME = re.compile(r'^\d{4}-' +  # year
                            r'(0[1-9]|1[012])-' +  # month (1-12)
                            r'(0[1-9]|1\d|2\d|3[01])' +  # day (1-31)
                            r'T' +  # mandatory T
@@ -16,7 +16,7 @@ AS2_DATE_TIME = re.compile(r'\d{4}-' +  # year
                            r'(\.\d{1,6})?' +  # fraction (6 digit int)
                            # mandatory Z if no timezone
                            # optional Z and timezone (+|-)(00-23):(00-59))
-                           r'(Z|(Z?[\-+](0\d|1\d|2[0123]):[012345]\d))$')
+                           r'(Z|(Z?[\-+](0\d|1\d|2[0123]):[012345]\d))\Z')
 
 
 def is_activity_datetime(val, prop='', **kwargs):
-- 
2.43.0


From 3f72a08c5684ae1eaccfd9940216e36a7e4897c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 62/95] fix: an error page was loaded, and cached for good, as
 the JSON-LD document

---
 jsonld/docloader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index cd27967..49c0f02 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -76,6 +76,8 @@ class RequestsJsonLoader:
 
         self.logger.info(f'GET "{url}"; headers: {{{self.headers}}}')
         response = requests.get(url, headers=self.headers)
+        # what comes with an error is not the document
+        response.raise_for_status()
 
         content_type = response.headers.get('content-type')
         if not content_type:
-- 
2.43.0


From 75ad9ab800b61391042ccc1c46ad285279618b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 63/95] fix: documents with several alternate links could not
 be loaded

---
 jsonld/docloader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index 49c0f02..7917f78 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -102,10 +102,15 @@ class RequestsJsonLoader:
                         {'url': url},
                         code='multiple context link headers')
                 doc['contextUrl'] = linked_context['target']
-            linked_alternate = parse_link_header(link_header).get('alternate')
+            alternates = parse_link_header(link_header).get('alternate', [])
+            # there may be several, for different types
+            if not isinstance(alternates, list):
+                alternates = [alternates]
+            linked_alternate = next(
+                (link for link in alternates
+                 if link.get('type') == 'application/ld+json'), None)
             # if not JSON-LD, alternate may point there
             if linked_alternate and \
-                    linked_alternate.get('type') == 'application/ld+json' and \
                     not re.match(r'^application/(\w*\+)?json$', content_type):
                 doc['contentType'] = 'application/ld+json'
                 doc['documentUrl'] = jsonld.prepend_base(
-- 
2.43.0


From ed30dc98e6629b783f0c26abc4af007cd1ad1dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 64/95] fix: content types with parameters were not recognised
 when looking at Link headers

---
 jsonld/docloader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index 7917f78..925ebab 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -88,11 +88,13 @@ class RequestsJsonLoader:
             'documentUrl': response.url,
             'document': response.json()
         }
+        # parameters (charset, profile) do not make it another type
+        media_type = content_type.split(';')[0].strip().lower()
         link_header = response.headers.get('link')
         if link_header:
             linked_context = parse_link_header(link_header).get(LINK_HEADER_REL)
             # only 1 related link header permitted
-            if linked_context and content_type != 'application/ld+json':
+            if linked_context and media_type != 'application/ld+json':
                 if isinstance(linked_context, list):
                     raise JsonLdError(
                         'URL could not be dereferenced, '
@@ -111,7 +113,7 @@ class RequestsJsonLoader:
                  if link.get('type') == 'application/ld+json'), None)
             # if not JSON-LD, alternate may point there
             if linked_alternate and \
-                    not re.match(r'^application/(\w*\+)?json$', content_type):
+                    not re.match(r'^application/(\w*\+)?json$', media_type):
                 doc['contentType'] = 'application/ld+json'
                 doc['documentUrl'] = jsonld.prepend_base(
                     url, linked_alternate['target'])
-- 
2.43.0


From e73f60d068b10e3a5d25c4026de3d35e9073386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 65/95] fix: a secure loader accepted documents that a redirect
 fetched over plain http

---
 jsonld/docloader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jsonld/docloader.py b/jsonld/docloader.py
index 925ebab..9444e93 100644
--- a/jsonld/docloader.py
+++ b/jsonld/docloader.py
@@ -78,6 +78,12 @@ class RequestsJsonLoader:
         response = requests.get(url, headers=self.headers)
         # what comes with an error is not the document
         response.raise_for_status()
+        # a redirect does not get around the need for https
+        if self.secure and any(
+                parse.urlparse(step.url).scheme != 'https'
+                for step in (*response.history, response)):
+            raise ValueError('Redirected to a non-"https://" url when ' +
+                             f'secure=True;\ngot: "{response.url}"')
 
         content_type = response.headers.get('content-type')
         if not content_type:
-- 
2.43.0


From 0790ea805996a62d53b8ce961c680e16466c020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 66/95] fix: deleting a module also removed other files whose
 names begin with its name

---
 citrine/cluster_tools/dbmodule/dbmodule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/citrine/cluster_tools/dbmodule/dbmodule.py b/citrine/cluster_tools/dbmodule/dbmodule.py
index aaf1862..eb2ce31 100644
--- a/citrine/cluster_tools/dbmodule/dbmodule.py
+++ b/citrine/cluster_tools/dbmodule/dbmodule.py
@@ -59,8 +59,10 @@ def delete_dbmodule(path: str, remove_empty: bool = True,
         rmtree(path)
         return
     name = split(abspath(path))[1]
+    # the database is stored in <name>, <name>.index, <name>.lock and so on
     affected = [join(path, file) for file in listdir(path)
-                if (isfile(join(path, file)) and file.startswith(name))
+                if (isfile(join(path, file)) and
+                    (file == name or file.startswith(f'{name}.')))
                     or file == '__init__.py']
     for file in affected:
         remove(file)
-- 
2.43.0


From 2e5330284afdcb71483d19588501e3f10e8e6852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 67/95] fix: a connection taken from the pool again misreported
 autocommit

---
 citrine/connection/container_connection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/citrine/connection/container_connection.py b/citrine/connection/container_connection.py
index b1ac4b6..bce8d17 100644
--- a/citrine/connection/container_connection.py
+++ b/citrine/connection/container_connection.py
@@ -133,7 +133,10 @@ class ContainerConnectionProperties:
         Whether to automatically commit actions performed by ``create``,
         ``update``, and ``delete``
         """
-        return self.___autocommit___
+        # the manager is what decides, and a connection that is taken from the
+        # pool again may come with another one
+        return getattr(self.transaction_manager, 'autocommit',
+                       self.___autocommit___)
 
     @autocommit.setter
     def autocommit(self, value):
-- 
2.43.0


From a773a3b33c21b956464a266f8c00402f0fe11040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 68/95] fix: nested or concurrent 'with db' blocks closed each
 other's connections

---
 citrine/database/containerdb.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 2195d64..6be1519 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -1,3 +1,5 @@
+from threading import local
+
 import ZODB
 from ZODB import DB
 from ZODB.FileStorage import FileStorage
@@ -99,6 +101,7 @@ class ContainerDb(DB):
              storage constructor if a path name or None is passed as
              the storage argument.
         """
+        self.__entered = local()
         if storage is None:
             storage, storage_args = MappingStorage(**storage_args), {}
         try:
@@ -392,8 +395,12 @@ class ContainerDb(DB):
         context management process
         :return: connection object
         """
-        self.__context_manager_connection = self.open()
-        return self.__context_manager_connection
+        # blocks may be nested, and entered by several threads at once
+        connection = self.open()
+        if not hasattr(self.__entered, 'connections'):
+            self.__entered.connections = []
+        self.__entered.connections.append(connection)
+        return connection
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.__context_manager_connection.close()
+        self.__entered.connections.pop().close()
-- 
2.43.0


From 359bacd084ab3b8291e15a25333fede3568ca4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:29 +0000
Subject: [PATCH 69/95] fix: an error inside 'with db' was masked, and its
 connection left open, by uncommitted changes

---
 citrine/database/containerdb.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 6be1519..1e8e118 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -403,4 +403,9 @@ class ContainerDb(DB):
         return connection
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.__entered.connections.pop().close()
+        connection = self.__entered.connections.pop()
+        if exc_type is not None:
+            # uncommitted changes would keep the connection from closing, and
+            # that error would take the place of the one that got us here
+            connection.transaction_manager.abort()
+        connection.close()
-- 
2.43.0


From 28bcc6c8e9c331264ed01f41679d6984e3426503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:17 +0000
Subject: [PATCH 70/95] fix: an ordered page silently turned a startIndex that
 is not a number ('', 0.0) into 0

---
 activitystreams/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index bd0b240..922f8e9 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -491,7 +491,7 @@ class OrderedCollectionPage(OrderedCollection, CollectionPage):
                                    orderedItems=orderedItems,
                                    partOf=partOf, next=next, prev=prev,
                                    acontext=acontext, **kwargs)
-        self.startIndex = startIndex if startIndex else 0
+        self.startIndex = 0 if startIndex is None else startIndex
 
 
 # ==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//==//
-- 
2.43.0


From 7a2341b5e41865b0d690461bfefaf7db86b45623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 71/95] fix: places, relationships, profiles and tombstones
 could not be made without an id

---
 activitystreams/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/activitystreams/models.py b/activitystreams/models.py
index 922f8e9..2340407 100644
--- a/activitystreams/models.py
+++ b/activitystreams/models.py
@@ -829,7 +829,7 @@ class Relationship(Object):
     """
     type = "Relationship"
 
-    def __init__(self, id, subject=None, object=None, relationship=None,
+    def __init__(self, id=None, subject=None, object=None, relationship=None,
                  **kwargs):
         super().__init__(id, **kwargs)
         self.subject = subject
@@ -901,7 +901,7 @@ class Place(Object):
     """
     type = "Place"
 
-    def __init__(self, id, accuracy=None, altitude=None, latitude=None,
+    def __init__(self, id=None, accuracy=None, altitude=None, latitude=None,
                  longitude=None, radius=None, units=None, **kwargs):
         super().__init__(id, **kwargs)
         self.accuracy = accuracy
@@ -920,7 +920,7 @@ class Profile(Object):
     """
     type = "Profile"
 
-    def __init__(self, id, describes=None, **kwargs):
+    def __init__(self, id=None, describes=None, **kwargs):
         super().__init__(id, **kwargs)
         self.describes = describes
 
@@ -933,7 +933,7 @@ class Tombstone(Object):
     """
     type = "Tombstone"
 
-    def __init__(self, id, former_type=None, deleted=None, formerType=None,
+    def __init__(self, id=None, former_type=None, deleted=None, formerType=None,
                  **kwargs):
         super().__init__(id, **kwargs)
         self.formerType = former_type if formerType is None else formerType
-- 
2.43.0


From c9e16e11363c55a93261186aef15a3f37ac97ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:26 +0000
Subject: [PATCH 72/95] fix: concurrent transactions could exceed the limit of
 a strict collection together

---
 citrine/storage/collection.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 4983c48..5f9af02 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -131,6 +131,14 @@ class Collection(Persistent):
             strict=strict
         )
 
+    def _take_space(self):
+        """
+        Makes transactions that add keys to a strict collection at the same time
+        conflict; the storage could merge them, exceeding the limit together
+        """
+        if self.strict:
+            self.meta._p_changed = True
+
     def get(self, key, default=None):
         """
         Retrieve a value from the collection.
@@ -152,6 +160,8 @@ class Collection(Persistent):
             raise CollectionCapacityError(
                 f'Cannot insert "{key}"; maximum size reached!'
             )
+        if not self.has_key(key):
+            self._take_space()
         return self.tree.insert(key, value)
 
     def update(self, collection):
@@ -166,6 +176,8 @@ class Collection(Persistent):
             raise CollectionCapacityError(
                 f'Cannot update collection; maximum size reached!'
             )
+        if new_keys:
+            self._take_space()
         return self.tree.update(collection)
 
     def pop(self, key, default=None):
@@ -201,6 +213,8 @@ class Collection(Persistent):
             raise CollectionCapacityError(
                 f'Cannot set "{key}"; maximum size reached!'
             )
+        if not self.has_key(key):
+            self._take_space()
         return self.tree.setdefault(key, value)
 
     def clear(self):
-- 
2.43.0


From c48481d9f84a2aa2513572d9efa6e1efc9367b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:30 +0000
Subject: [PATCH 73/95] fix: an object deleted while groups were condensed step
 by step failed it, or came back as None

---
 citrine/storage/container.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 100feaa..6f32e20 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -344,7 +344,9 @@ class Container(Persistent, ContainerProperties):
             for group in source_groups:
                 for key in list(group.keys()):
                     with transaction_manager as tm:
-                        fn(group, key)
+                        # may have been deleted since the keys were listed
+                        if group.has_key(key):
+                            fn(group, key)
                         tm.commit()
         else:
             for group in source_groups:
-- 
2.43.0


From 1c913b13d772fdc1c57f8111ee629daef2c70ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:34 +0000
Subject: [PATCH 74/95] fix: condensing step by step dropped groups that others
 had added meanwhile

---
 citrine/storage/container.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index 6f32e20..e4d5621 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -354,18 +354,20 @@ class Container(Persistent, ContainerProperties):
                     fn(group, key)
 
         if transfer:
-            remaining = tuple(
-                group for group in self.groups
-                if not any(group is source for source in source_groups))
             if transaction_manager:
                 with transaction_manager as tm:
-                    self.___groups___ = remaining
+                    self._drop_groups(source_groups)
                     tm.commit()
             else:
-                self.___groups___ = remaining
+                self._drop_groups(source_groups)
             return list(source_groups)
         return []
 
+    def _drop_groups(self, groups):
+        self.___groups___ = tuple(
+            group for group in self.groups
+            if not any(group is dropped for dropped in groups))
+
     def has(self, id) -> int:
         """
         Return a bool describing whether the object is already present in the
-- 
2.43.0


From 9e1dba398489e82a413e82070933e9bf6effa313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 75/95] fix: objects written or deleted while the groups are
 reorganised were lost or came back

---
 citrine/storage/collection.py | 15 +++++++++++++++
 citrine/storage/container.py  | 24 +++++++++++++++++++++++-
 citrine/storage/group.py      |  8 ++++++++
 3 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 5f9af02..167b897 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -139,6 +139,21 @@ class Collection(Persistent):
         if self.strict:
             self.meta._p_changed = True
 
+    def require_current(self):
+        """
+        Refuses the transaction with a conflict if another one changes the
+        contents of the collection before it is committed
+        """
+        nodes = [self.tree]
+        bucket = self.tree._firstbucket
+        while bucket is not None:
+            nodes.append(bucket)
+            bucket = bucket._next
+        for node in nodes:
+            # the bucket of a small tree is stored as a part of it
+            if node._p_jar is not None:
+                node._p_jar.readCurrent(node)
+
     def get(self, key, default=None):
         """
         Retrieve a value from the collection.
diff --git a/citrine/storage/container.py b/citrine/storage/container.py
index e4d5621..4de2c96 100644
--- a/citrine/storage/container.py
+++ b/citrine/storage/container.py
@@ -331,14 +331,21 @@ class Container(Persistent, ContainerProperties):
         Condenses the given secondary groups into the primary group; every
         other group is left alone. See ``condense`` for the parameters.
         """
+        if not transaction_manager:
+            for group in source_groups:
+                group.require_current()
+
         if transfer:
             # the value must be in the primary before it leaves the group, or
             # it is lost when the primary refuses it
             def fn(group, key):
+                self._claim(key)
                 self.primary.insert(key, group.get(key))
                 group.pop(key)
         else:
-            fn = lambda group, key: self.primary.insert(key, group.get(key))
+            def fn(group, key):
+                self._claim(key)
+                self.primary.insert(key, group.get(key))
 
         if transaction_manager:
             for group in source_groups:
@@ -368,6 +375,19 @@ class Container(Persistent, ContainerProperties):
             group for group in self.groups
             if not any(group is dropped for dropped in groups))
 
+    def _claim(self, id):
+        """
+        Makes the transaction conflict with those that change the groups, or the
+        object with the given id, at the same time; one of the changes would
+        be lost
+        """
+        if not self.primary.has_key(id) and any(
+                group.has_key(id) for group in self.groups[1:]):
+            # there is no record of the object that all of them write to
+            self._p_changed = True
+        elif self._p_jar is not None:
+            self._p_jar.readCurrent(self)
+
     def has(self, id) -> int:
         """
         Return a bool describing whether the object is already present in the
@@ -395,6 +415,7 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier for the object to be stored
         :param obj: the object to be stored
         """
+        self._claim(id)
         if not (res := self.primary.insert(id, obj)):
             return self.primary.update({id: obj})
         return res
@@ -405,6 +426,7 @@ class Container(Persistent, ContainerProperties):
         :param id: identifier of the object
         :return: removed object
         """
+        self._claim(id)
         return tuple(group.pop(id) for group in self.groups
                      if group.has_key(id))
 
diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 8440b4a..477653e 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -304,6 +304,14 @@ class Group(Persistent):
                             for _, max_collection_size in sorted(custom.items()))
         return Group(collections=collections, strict=strict)
 
+    def require_current(self):
+        """
+        Refuses the transaction with a conflict if another one changes the
+        contents of the group before it is committed
+        """
+        for collection in self.collections:
+            collection.require_current()
+
     @groupfn
     def get(self, key, default=None):
         """
-- 
2.43.0


From d675b7bd95e2a8ead1b25dc54cb651aaf52c8670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 76/95] fix: write values of subclasses of str and dict as what
 they are, not as lists

---
 jsonld/jsonld.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 5882021..c426821 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -60,6 +60,10 @@ class PropertyJsonLD(PropertyAwareObject):
             return value.data(exclude=('acontext',))
         if type(value) in self.__data_handler_fns.keys():
             return self.__data_handler_fns[type(value)](value, self.__handler)
+        if isinstance(value, (str, dict)):
+            # subclasses are iterable, but no lists
+            kind = str if isinstance(value, str) else dict
+            return self.__data_handler_fns[kind](value, self.__handler)
         if isinstance(value, Iterable):
             return self.__data_handler_fns[list](value, self.__handler)
         return str(value)
-- 
2.43.0


From 451553da84c6a474487a910d025436f4c1b6b8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:03 +0000
Subject: [PATCH 77/95] fix: the operations of a connection refused arguments
 given by name

---
 citrine/storage/transaction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index fccf942..be5edfb 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -94,14 +94,14 @@ def autocommit(fn):
     :return:
     """
 
-    def decorator(obj, id, *args, **kwargs):
-        tm = obj.transaction_manager
+    def decorator(self, id, *args, **kwargs):
+        tm = self.transaction_manager
         if not tm.autocommit:
             if getattr(tm, 'transaction_uuid', None):
                 tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
-            return fn(obj, id, *args, **kwargs)
+            return fn(self, id, *args, **kwargs)
         with tm:
             tm.logger.info(f'{tm.transaction_uuid}: {fn.__name__} {id}')
-            return fn(obj, id, *args, **kwargs)
+            return fn(self, id, *args, **kwargs)
 
     return decorator
\ No newline at end of file
-- 
2.43.0


From dd30e61c333ef353309826fed3fbb27a5501ce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:20 +0000
Subject: [PATCH 78/95] fix: a database opened by path with create=True lost
 its container and could not be used

---
 citrine/database/containerdb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index 1e8e118..a58119f 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -125,6 +125,8 @@ class ContainerDb(DB):
                 # database itself is about to be opened again, and would
                 # never close after self.close()
                 self.storage.close()
+                # the file has been created, again would empty it
+                storage_args.pop('create', None)
             db = DB(storage)
             conn = db.open()
             with conn.transaction_manager as tm:
-- 
2.43.0


From 429dc99c21102ac8c89e051b83913f37e15deeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:07 +0000
Subject: [PATCH 79/95] fix: the quota of a new database opened by path was
 exceeded on creation

---
 citrine/database/containerdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/citrine/database/containerdb.py b/citrine/database/containerdb.py
index a58119f..1cb260a 100644
--- a/citrine/database/containerdb.py
+++ b/citrine/database/containerdb.py
@@ -127,7 +127,7 @@ class ContainerDb(DB):
                 self.storage.close()
                 # the file has been created, again would empty it
                 storage_args.pop('create', None)
-            db = DB(storage)
+            db = DB(storage, **storage_args)
             conn = db.open()
             with conn.transaction_manager as tm:
                 # if this exists, do nothing, the exception is unrelated to
-- 
2.43.0


From f0d2ce3628ed7122bc17568bece089b076cb0035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:40 +0000
Subject: [PATCH 80/95] fix: the documented transforms of an object's output
 were ignored

---
 jsonld/jsonld.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index c426821..6a87bf9 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -68,6 +68,10 @@ class PropertyJsonLD(PropertyAwareObject):
             return self.__data_handler_fns[list](value, self.__handler)
         return str(value)
 
+    @staticmethod
+    def __transform(fn, value):
+        # properties without a value have nothing to transform
+        return fn(value) if fn and value is not None else value
 
     def data(self, include: Iterable = (), exclude: Iterable = (),
              transforms: dict = None, rename: dict = None, include_none=False,
@@ -90,7 +94,9 @@ class PropertyJsonLD(PropertyAwareObject):
             rename = {**JSON_LD_KEYMAP, **(rename if rename else {})}
             data = {
                 # change name of property, if provided in mapping
-                rename.get(prop, prop): self.__handler(getattr(self, prop, None))
+                rename.get(prop, prop): self.__handler(
+                    self.__transform(transforms.get(prop),
+                                     getattr(self, prop, None)))
                 for prop in self.__properties__
                 # the namespace is not data, not even when None is
                 if prop != '__namespace__'
-- 
2.43.0


From 3a809fb59e7ffd7b51ef20b68c1e14de329aa02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 81/95] Revert "fix: the documented transforms of an object's
 output were ignored"

This reverts commit f0d2ce3628ed7122bc17568bece089b076cb0035.
---
 jsonld/jsonld.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index 6a87bf9..c426821 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -68,10 +68,6 @@ class PropertyJsonLD(PropertyAwareObject):
             return self.__data_handler_fns[list](value, self.__handler)
         return str(value)
 
-    @staticmethod
-    def __transform(fn, value):
-        # properties without a value have nothing to transform
-        return fn(value) if fn and value is not None else value
 
     def data(self, include: Iterable = (), exclude: Iterable = (),
              transforms: dict = None, rename: dict = None, include_none=False,
@@ -94,9 +90,7 @@ class PropertyJsonLD(PropertyAwareObject):
             rename = {**JSON_LD_KEYMAP, **(rename if rename else {})}
             data = {
                 # change name of property, if provided in mapping
-                rename.get(prop, prop): self.__handler(
-                    self.__transform(transforms.get(prop),
-                                     getattr(self, prop, None)))
+                rename.get(prop, prop): self.__handler(getattr(self, prop, None))
                 for prop in self.__properties__
                 # the namespace is not data, not even when None is
                 if prop != '__namespace__'
-- 
2.43.0


From c0acb480d729ac4ab1862710f54153aa5bbeca51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:57 +0000
Subject: [PATCH 82/95] fix: output options given as generators or sets
 selected the wrong entries

---
 jsonld/jsonld.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsonld/jsonld.py b/jsonld/jsonld.py
index c426821..0c52af7 100644
--- a/jsonld/jsonld.py
+++ b/jsonld/jsonld.py
@@ -3,7 +3,7 @@ Tools for working with json-ld data
 """
 import logging
 import json
-from collections.abc import Iterable
+from collections.abc import Container, Iterable
 from numbers import Number
 
 from jsonld.base import PropertyAwareObject, contextualproperty
@@ -84,6 +84,11 @@ class PropertyJsonLD(PropertyAwareObject):
         :param context: contextual property context to operate under
         :return: dictionary of properties
         """
+        # a generator can be searched only once, and a set not for a list
+        include, exclude = (
+            names if names is None or isinstance(names, Container)
+            else tuple(names) for names in (include, exclude))
+        reject_values = tuple(reject_values)
         with self.switch_context(context) as process_context:
             transforms = {**self.default_transforms,
                           **(transforms if transforms else {})}
-- 
2.43.0


From 5c6428fb40400ef304072284affe438220bb16fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:54 +0000
Subject: [PATCH 83/95] fix: a property class derived from another one acted as
 its parent

---
 jsonld/base.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index 2c0058e..22f78ca 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -258,9 +258,14 @@ class JsonProperty(NamespacedObject):
         :param refresh:
         :return:
         """
-        if not hasattr(cls, '__property_name__') or refresh:
+        # what a parent has cached is about the property of the parent
+        if '__property_name__' not in cls.__dict__ or refresh:
             prop = [key for key, value in cls.__dict__.items()
                     if isinstance(value, property)]
+            if not prop and cls.__base__ not in (JsonProperty,
+                                                 NamespacedObject):
+                # without a property of its own it has the inherited one
+                prop = [cls.__base__.__get_property_name__()]
             # the registration process only supports ONE property per class;
             # this is intentional
             if len(prop) != 1:
@@ -278,11 +283,10 @@ class JsonProperty(NamespacedObject):
         :param refresh:
         :return:
         """
-        if not hasattr(cls, '__property_name__') or refresh:
-            cls.__property_name__ = cls.__get_property_name__(refresh=True)
+        name = cls.__get_property_name__(refresh)
         # caches the registration for ease of use
-        if not hasattr(cls, '__registration__') or refresh:
-            prop = getattr(cls, cls.__property_name__, None)
+        if '__registration__' not in cls.__dict__ or refresh:
+            prop = getattr(cls, name, None)
             if prop:
                 cls.__registration__ = (prop.fget, prop.fset, prop.fdel,
                                         prop.__doc__)
-- 
2.43.0


From e44ad84748ae9e6bb67f28e57fb23b8d6c9c5378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:58 +0000
Subject: [PATCH 84/95] fix: packages lost objects, properties and mappings
 given as iterators

---
 jsonld/package.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index 692bda8..8c5d35b 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -25,13 +25,14 @@ class JsonLdPackage(ClassCloner):
         self.namespace = namespace
         self.logger = logging.getLogger(f'JsonLdPackage_{namespace}')
         # classes are objects that the engine will produce from incoming data
-        self.object_ref = self.clone_classes(objects)
+        self.object_ref = self.clone_classes(tuple(objects))
         self.objects = tuple(self.object_ref.values())
         # properties are managed attributes for classes
-        self.property_ref = self.clone_classes(properties)
+        self.property_ref = self.clone_classes(tuple(properties))
         self.properties = tuple(self.property_ref.values())
         # property_mapping connects properties to classes on instantiation
-        self.property_mapping = property_mapping if property_mapping else {}
+        self.property_mapping = {ns: tuple(prop_ns) for ns, prop_ns
+                                 in (property_mapping or {}).items()}
 
         self.__ref = {obj.__get_namespace__(): obj
                       for obj in self.objects + self.properties}
-- 
2.43.0


From d9f5526fdb9ef83ec0e7fae41023cb153a1bce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:04 +0000
Subject: [PATCH 85/95] fix: static methods and inner classes of packaged
 classes did not work

---
 jsonld/kamino.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 5e06522..06abda8 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -138,8 +138,10 @@ class ClassCloner:
             return wrap_return
         # locate anything callable and wrap it so output values will be mapped,
         # when applicable
-        for name, method in cls.__dict__.items():
-            if callable(method):
+        for name, method in tuple(cls.__dict__.items()):
+            if isinstance(method, staticmethod):
+                setattr(cls, name, staticmethod(wrapper(method.__func__)))
+            elif callable(method) and not isinstance(method, type):
                 setattr(cls, name, wrapper(method))
 
     def wrap_properties(self, cls):
-- 
2.43.0


From 2b26484d8afa149f4294fd4f1044dc791d312b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:10 +0000
Subject: [PATCH 86/95] fix: mapped properties in combined engines kept objects
 of other classes

---
 jsonld/kamino.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 06abda8..0de38ac 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -198,3 +198,6 @@ class ClassCloner:
                                fset=set_wrapper(prop.fset),
                                fdel=prop.fdel, doc=prop.__doc__)
             setattr(cls, name, wrapped)
+        if '__get_registration__' in dir(cls):
+            # what the original has cached is not wrapped for this package
+            cls.__get_registration__(refresh=True)
-- 
2.43.0


From 2db53560bb6af3907975efcd4ea0ffde40277712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:16 +0000
Subject: [PATCH 87/95] fix: indexing an object with an iterator of names
 selected nothing

---
 jsonld/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/base.py b/jsonld/base.py
index 22f78ca..c0af438 100644
--- a/jsonld/base.py
+++ b/jsonld/base.py
@@ -311,7 +311,7 @@ class PropertyAwareObject(NamespacedObject):
             yield prop, getattr(self, prop)
 
     def __getitem__(self, keys):
-        keys = [keys] if isinstance(keys, str) else keys
+        keys = [keys] if isinstance(keys, str) else list(keys)
         if any(key not in self.__properties__ for key in keys):
             bad_keys = [key for key in keys if key not in self.__properties__]
             raise KeyError(f'''Key{'s' if len(bad_keys) > 1 else ''} ''' +
-- 
2.43.0


From 552703cb978dc6f83d1b48e24ec5a4b8a2601d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:21 +0000
Subject: [PATCH 88/95] fix: indexing a package with an iterator of names
 selected nothing

---
 jsonld/package.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonld/package.py b/jsonld/package.py
index 8c5d35b..a0289eb 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -136,6 +136,7 @@ class JsonLdPackage(ClassCloner):
     def __getitem__(self, keys):
         if isinstance(keys, str):
             return self.__ref.get(keys, None)
+        keys = list(keys)
         if any(not isinstance(key, str) for key in keys):
             raise ValueError('JsonLdPackage getitem can only accept strings')
         return [self.__ref.get(key, None) for key in keys]
-- 
2.43.0


From 2f7edd583d55a6a623779e6dccb900bce54f6d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:26 +0000
Subject: [PATCH 89/95] fix: additional checks given as an iterator were made
 only once

---
 jsonld/tools/type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonld/tools/type.py b/jsonld/tools/type.py
index b9c9a21..520e3d4 100644
--- a/jsonld/tools/type.py
+++ b/jsonld/tools/type.py
@@ -39,7 +39,7 @@ class SetterValidator:
         # we would be referencing a class type before it has been "created"
         self.types = set(types) if isinstance(types, Iterable) else {types}
         self.functional = functional
-        self.additional = additional
+        self.additional = tuple(additional)
         self.kwargs = kwargs
         if none_allowed:
             self.types = self.types | {NoneType}
-- 
2.43.0


From 956f3141f9a441e1a8d971df07c4cb8fb1d8d760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:31 +0000
Subject: [PATCH 90/95] fix: changes of registries and containers made of plain
 dictionaries were not stored

---
 citrine/cluster_tools/clusterdb/container.py |  4 +++-
 citrine/persistence.py                       | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/citrine/cluster_tools/clusterdb/container.py b/citrine/cluster_tools/clusterdb/container.py
index 245fac2..fc11247 100644
--- a/citrine/cluster_tools/clusterdb/container.py
+++ b/citrine/cluster_tools/clusterdb/container.py
@@ -40,7 +40,9 @@ class ClusterRegistryContainer(Persistent):
 
     def __init__(self, modules: dict | PersistentMapping = None):
         super().__init__()
-        self.modules = modules if modules else PersistentMapping()
+        # changes of anything else would not be stored
+        self.modules = modules if isinstance(modules, PersistentMapping) \
+            else PersistentMapping(modules or {})
 
     def has(self, id) -> bool:
         """
diff --git a/citrine/persistence.py b/citrine/persistence.py
index eabc79d..82a828c 100644
--- a/citrine/persistence.py
+++ b/citrine/persistence.py
@@ -111,8 +111,14 @@ class DbContainer(Persistent):
     def __init__(self, containers: dict | PersistentMapping = None):
         super().__init__()
         # Containers will be stored as a PM of PMs
-        self.containers = containers if containers is not None else \
-            PersistentMapping({0: PersistentMapping()})
+        if containers is None:
+            containers = {0: {}}
+        # changes of anything else would not be stored
+        self.containers = PersistentMapping({
+            key: container if isinstance(container, PersistentMapping)
+            else PersistentMapping(container)
+            for key, container in containers.items()
+        })
 
     def expand_size(self, new_size: int):
         if new_size <= self.containers_size:
-- 
2.43.0


From 3fb2649db6b4c6d9153f85a9e9925bdba461e040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:36 +0000
Subject: [PATCH 91/95] fix: a group changed with the list of collections it
 was made of

---
 citrine/storage/group.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 477653e..9cd44de 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -224,6 +224,7 @@ class Group(Persistent):
 
     def __init__(self, collections, strict=False, **kwargs):
         super().__init__(**kwargs)
+        collections = tuple(collections)
         # repeating UUID values
         if len({col.uuid for col in collections}) != len(collections):
             raise KeyError("Collections must not have conflicting UUID values")
-- 
2.43.0


From 9450c080525706481030cde6f19bbc76abe57ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:40 +0000
Subject: [PATCH 92/95] fix: updates from iterables of key-value pairs failed

---
 citrine/storage/collection.py | 9 +++++++++
 citrine/storage/group.py      | 3 ++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/citrine/storage/collection.py b/citrine/storage/collection.py
index 167b897..c2f8421 100644
--- a/citrine/storage/collection.py
+++ b/citrine/storage/collection.py
@@ -19,6 +19,14 @@ logger = logging.getLogger(__name__)
 logger.setLevel(logging.INFO)
 
 
+def key_value_pairs(collection):
+    """
+    The pairs of a mapping, or of any other iterable of pairs, as a dictionary
+    """
+    return dict(collection.items() if hasattr(collection, 'items')
+                else collection)
+
+
 class CollectionCapacityError(Exception):
     """
     Raised when an operation will exceed the capacity of a collection.
@@ -186,6 +194,7 @@ class Collection(Persistent):
         :raises CollectionCapacityError: if the size of the new keys to be
         inserted will exceed the limit in strict mode
         """
+        collection = key_value_pairs(collection)
         new_keys = [key for key in collection.keys() if key not in self.keys()]
         if self.size + len(new_keys) > self.max_size and self.strict:
             raise CollectionCapacityError(
diff --git a/citrine/storage/group.py b/citrine/storage/group.py
index 9cd44de..80a0c2b 100644
--- a/citrine/storage/group.py
+++ b/citrine/storage/group.py
@@ -5,7 +5,7 @@ from uuid import uuid4
 
 from persistent import Persistent
 
-from citrine.storage.collection import Collection
+from citrine.storage.collection import Collection, key_value_pairs
 from citrine.storage.consts import DEFAULT_COLLECTION_SIZE
 
 minimum = min
@@ -344,6 +344,7 @@ class Group(Persistent):
         :raises CollectionCapacityError: if the size of the new keys to be
         inserted will exceed the limit in strict mode
         """
+        collection = key_value_pairs(collection)
         new_keys = (key for key in collection.keys() if key not in self.keys())
         if len(tuple(new_keys)) + self.size > self.max_size and self.strict:
             raise GroupCapacityError("Maximum size reached! Cannot perform update")
-- 
2.43.0


From ec6a2c5b00c4218b93d3a808644cf46548e3a1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:12 +0000
Subject: [PATCH 93/95] fix: subtracting a package takes its properties off the
 classes left

---
 jsonld/package.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/jsonld/package.py b/jsonld/package.py
index a0289eb..670f7ce 100644
--- a/jsonld/package.py
+++ b/jsonld/package.py
@@ -133,6 +133,14 @@ class JsonLdPackage(ClassCloner):
                              object_class: PropertyAwareObject):
         delattr(object_class, property_name)
 
+    @staticmethod
+    def __get_original(cls):
+        # the class a package was given, before anything was linked to it
+        while (package := vars(cls).get('__jsonld_package__')) is not None:
+            cls = next(original for original, clone
+                       in package.object_ref.items() if clone is cls)
+        return cls
+
     def __getitem__(self, keys):
         if isinstance(keys, str):
             return self.__ref.get(keys, None)
@@ -167,7 +175,8 @@ class JsonLdPackage(ClassCloner):
         if not isinstance(other, JsonLdPackage):
             raise TypeError(f'Cannot subtract {type(other)} from JsonLdPackage')
         removed_obj_ns = [cls.__get_namespace__() for cls in other.objects]
-        remaining_objs = tuple(cls for cls in self.objects
+        # our own classes have the removed properties linked to them already
+        remaining_objs = tuple(self.__get_original(cls) for cls in self.objects
                               if cls.__get_namespace__() not in removed_obj_ns)
 
         removed_prp_ns = [cls.__get_namespace__() for cls in other.properties]
-- 
2.43.0


From 5ba1118cd8055adbd482fcebb62246fe0779f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:14 +0000
Subject: [PATCH 94/95] fix: read-only properties stay read-only in the classes
 of a package

---
 jsonld/kamino.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonld/kamino.py b/jsonld/kamino.py
index 0de38ac..51ee1fb 100644
--- a/jsonld/kamino.py
+++ b/jsonld/kamino.py
@@ -194,8 +194,9 @@ class ClassCloner:
                 # a parent cloned before this one has wrapped it already, and
                 # a copy would hide what is linked to that parent later
                 continue
-            wrapped = property(fget=get_wrapper(prop.fget),
-                               fset=set_wrapper(prop.fset),
+            # a property without a getter or a setter stays without
+            wrapped = property(fget=prop.fget and get_wrapper(prop.fget),
+                               fset=prop.fset and set_wrapper(prop.fset),
                                fdel=prop.fdel, doc=prop.__doc__)
             setattr(cls, name, wrapped)
         if '__get_registration__' in dir(cls):
-- 
2.43.0


From 035db0a0ca541039ba39f4acb8a69a1316cd213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:40 +0000
Subject: [PATCH 95/95] fix: a transaction that cannot begin leaves automatic
 commits on

---
 citrine/storage/transaction.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/citrine/storage/transaction.py b/citrine/storage/transaction.py
index be5edfb..979608e 100644
--- a/citrine/storage/transaction.py
+++ b/citrine/storage/transaction.py
@@ -24,8 +24,10 @@ class TransactionManager(ZoTransactionManager):
     def __enter__(self):
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
+        transaction = super().__enter__()
+        # only now, nothing would turn it on again if there is no transaction
         self.autocommit = False
-        return super().__enter__()
+        return transaction
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
@@ -62,8 +64,10 @@ class ThreadTransactionManager(ZoThreadTransactionManager):
     def __enter__(self):
         self.transaction_uuid = uuid.uuid4()
         self.logger.info(f'START TRANSACTION {self.transaction_uuid}')
+        transaction = super().__enter__()
+        # only now, nothing would turn it on again if there is no transaction
         self.autocommit = False
-        return super().__enter__()
+        return transaction
 
     def __exit__(self, exc_type, exc_val, exc_tb):
         try:
-- 
2.43.0

