From fd20ea4e9fe749b970a29911174b66e8344d34be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:36 +0000
Subject: [PATCH 01/37] fix: do not let the gc clear live objects held by
 vectors sharing nodes

Items in nodes shared between C vectors (or between a vector and an evolver) were
reported to the gc once per vector holding the node although they are only
referenced once.
---
 pvectorcmodule.c | 70 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 62 insertions(+), 8 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 9ed0ea1..18938dc 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -425,16 +425,39 @@ static PyObject* PVector_repeat(PVector *self, Py_ssize_t n) {
   }
 }
 
-static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
-    // Naive traverse
-    Py_ssize_t i;
-    for (i = o->count; --i >= 0; ) {
-      Py_VISIT(_get_item(o, i));
+static int traverseNode(VNode *node, int level, visitproc visit, void *arg) {
+    // The items of a node that is shared between vectors are only referenced once no
+    // matter how many vectors that hold the node. They must hence not be reported
+    // by every one of these vectors, the gc would then conclude that live
+    // objects are garbage. Leave shared nodes to the reference counting.
+    int i;
+    if((node == NULL) || (NODE_REF_COUNT(node) != 1)) {
+      return 0;
+    }
+
+    for(i = 0; i < BRANCH_FACTOR; i++) {
+      if(level > 0) {
+        int result = traverseNode((VNode*)node->items[i], level - SHIFT, visit, arg);
+        if(result) {
+          return result;
+        }
+      } else {
+        Py_VISIT((PyObject*)node->items[i]);
+      }
     }
 
     return 0;
 }
 
+static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
+    int result = traverseNode(o->tail, 0, visit, arg);
+    if(result) {
+      return result;
+    }
+
+    return traverseNode(o->root, o->shift, visit, arg);
+}
+
 
 static PyObject* PVector_index(PVector *self, PyObject *args) {
   // A direct rip-off of the tuple version
@@ -514,7 +537,8 @@ static PVector* rawCopyPVector(PVector* vector) {
   newVector->root = vector->root;
   newVector->tail = vector->tail;
   newVector->in_weakreflist = NULL;
-  PyObject_GC_Track((PyObject*)newVector);
+  // Not tracked by the gc until it is cleaned and released into the wild, the
+  // evolver takes care of traversing it until then.
   return newVector;
 }
 
@@ -1497,6 +1521,7 @@ static PyObject *PVectorEvolver_persistent(PVectorEvolver *self) {
   PVector *resultVector;
   if(self->newVector != self->originalVector) {
     cleanVector(self->newVector);
+    PyObject_GC_Track((PyObject*)self->newVector);
     Py_DECREF(self->originalVector);
   }
 
@@ -1529,10 +1554,39 @@ static PyObject* PVectorEvolver_is_dirty(PVectorEvolver *self) {
   return Py_False;
 }
 
+static int traverseDirtyNode(VNode *node, int level, visitproc visit, void *arg) {
+  // Dirty nodes are only reachable from the evolver that created them, all other
+  // nodes are owned by vectors.
+  int i;
+  if((node == NULL) || !IS_DIRTY(node)) {
+    return 0;
+  }
+
+  for(i = 0; i < BRANCH_FACTOR; i++) {
+    if(level > 0) {
+      int result = traverseDirtyNode((VNode*)node->items[i], level - SHIFT, visit, arg);
+      if(result) {
+        return result;
+      }
+    } else {
+      Py_VISIT((PyObject*)node->items[i]);
+    }
+  }
+
+  return 0;
+}
+
 static int PVectorEvolver_traverse(PVectorEvolver *self, visitproc visit, void *arg) {
-  Py_VISIT(self->newVector);
+  Py_VISIT(self->originalVector);
   if (self->newVector != self->originalVector) {
-      Py_VISIT(self->originalVector);
+    int result = traverseDirtyNode(self->newVector->tail, 0, visit, arg);
+    if(result == 0) {
+      result = traverseDirtyNode(self->newVector->root, self->newVector->shift, visit, arg);
+    }
+
+    if(result) {
+      return result;
+    }
   }
   Py_VISIT(self->appendList);
   return 0;
-- 
2.43.0


From 2225cc8fc7caf14874f870ac04e33699fa5a8dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:31:17 +0000
Subject: [PATCH 02/37] fix: do not use freed memory when released items
 re-enter the evolver

Replacing, deleting or extending could run destructors or iterators that use the
same C evolver while it still referred to released items, vectors or lists.
---
 pvectorcmodule.c | 54 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 18938dc..3930243 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1337,7 +1337,15 @@ static PyObject *PVectorEvolver_append(PVectorEvolver *self, PyObject *args) {
 }
 
 static PyObject *PVectorEvolver_extend(PVectorEvolver *self, PyObject *args) {
-  if (PyList_SetSlice(self->appendList, PY_SSIZE_T_MAX, PY_SSIZE_T_MAX, args) < 0) {
+  // Realize the iterable first, the iteration may execute code that uses the evolver.
+  PyObject *items = PySequence_List(args);
+  if (items == NULL) {
+    return NULL;
+  }
+
+  int result = PyList_SetSlice(self->appendList, PY_SSIZE_T_MAX, PY_SSIZE_T_MAX, items);
+  Py_DECREF(items);
+  if (result < 0) {
     return NULL;
   }
 
@@ -1460,9 +1468,16 @@ static int internalPVectorDelete(PVectorEvolver *self, Py_ssize_t position) {
     return -1;
   }
 
-  Py_DECREF(self->originalVector);
+  // Release the old vectors last, doing so may execute code that uses the evolver.
+  PVector *oldOriginalVector = self->originalVector;
+  PVector *oldNewVector = self->newVector;
   self->originalVector = temp2;
   self->newVector = self->originalVector;
+  if(oldOriginalVector != oldNewVector) {
+    cleanVector(oldNewVector);
+    Py_DECREF(oldNewVector);
+  }
+  Py_DECREF(oldOriginalVector);
   return 0;
 }
 
@@ -1484,23 +1499,26 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
       }
 
       if(value != NULL) {
+        // Keep the replaced item alive until done, releasing it may execute code
+        // that uses the evolver.
+        PyObject *oldItem = _get_item(self->newVector, position);
+        Py_INCREF(oldItem);
         if(position < TAIL_OFF(self->newVector)) {
           self->newVector->root = doSetWithDirty(self->newVector->root, self->newVector->shift, position, value);
         } else {
           self->newVector->tail = doSetWithDirty(self->newVector->tail, 0, position, value);
         }
 
+        Py_DECREF(oldItem);
         return 0;
       }
 
       return internalPVectorDelete(self, position);
     } else if((0 <= position) && (position < (self->newVector->count + PyList_GET_SIZE(self->appendList)))) {
       if (value != NULL) {
-        int result = PyList_SetItem(self->appendList, position - self->newVector->count, value); 
-        if(result == 0) {
-          Py_INCREF(value);
-        }
-        return result;
+        // Steals a reference, also upon failure
+        Py_INCREF(value);
+        return PyList_SetItem(self->appendList, position - self->newVector->count, value);
       }
 
       return internalPVectorDelete(self, position);
@@ -1518,25 +1536,33 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
 }
 
 static PyObject *PVectorEvolver_persistent(PVectorEvolver *self) {
+  // Release the old vectors and the list last, doing so may execute code that uses
+  // the evolver.
   PVector *resultVector;
+  PVector *oldOriginalVector = NULL;
+  PVector *oldNewVector = NULL;
+  PyObject *oldAppendList = NULL;
+  PyObject *appendList = self->appendList;
   if(self->newVector != self->originalVector) {
     cleanVector(self->newVector);
     PyObject_GC_Track((PyObject*)self->newVector);
-    Py_DECREF(self->originalVector);
+    oldOriginalVector = self->originalVector;
   }
 
   resultVector = self->newVector;
 
   if(PyList_GET_SIZE(self->appendList)) {
-    PVector *oldVector = resultVector;
+    oldNewVector = resultVector;
     resultVector = (PVector*)PVector_extend(resultVector, self->appendList);
-    Py_DECREF(oldVector);
-    Py_DECREF(self->appendList);
-    self->appendList = NULL;
+    oldAppendList = self->appendList;
+    appendList = NULL;
   }
 
-  initializeEvolver(self, resultVector, self->appendList);
-  Py_INCREF(resultVector);  
+  initializeEvolver(self, resultVector, appendList);
+  Py_INCREF(resultVector);
+  Py_XDECREF(oldOriginalVector);
+  Py_XDECREF(oldNewVector);
+  Py_XDECREF(oldAppendList);
   return (PyObject*)resultVector;
 }
 
-- 
2.43.0


From 97aa023b74b920fc0f4fa671d461be85a3f80b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:43 +0000
Subject: [PATCH 03/37] fix: do not read a freed vector from a re-entered
 exhausted iterator

---
 pvectorcmodule.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 3930243..f0a9810 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1193,8 +1193,8 @@ static PyObject *PVectorIter_next(PVectorIter *it) {
         return item;
     }
 
-    Py_DECREF(seq);
     it->it_seq = NULL;
+    Py_DECREF(seq);
     return NULL;
 }
 
-- 
2.43.0


From 18eb61d776a3ba9302f542cbade62bd245d20e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:43 +0000
Subject: [PATCH 04/37] fix: do not leak the new vector when the iterator
 passed to extend raises

---
 pvectorcmodule.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index f0a9810..352ffc6 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -887,7 +887,11 @@ static PyObject* PVector_extend(PVector *self, PyObject *iterable) {
       }
 
       Py_DECREF(it);
-      HANDLE_ITERATION_ERROR()
+      if (PyErr_Occurred() && !PyErr_ExceptionMatches(PyExc_StopIteration)) {
+        Py_DECREF(newVec);
+        return NULL;
+      }
+      PyErr_Clear();
       return (PyObject*)newVec;
     }
 }
-- 
2.43.0


From 164c17f9e193951c6fef7e067ff992e6a149b6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:43 +0000
Subject: [PATCH 05/37] fix: let exceptions from comparisons through C
 PVector.remove

They were replaced by a ValueError, unlike in the Python implementation.
---
 pvectorcmodule.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 352ffc6..e5f0c49 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1091,13 +1091,20 @@ static PyObject* PVector_delete(PVector *self, PyObject *args) {
 }
 
 static PyObject* PVector_remove(PVector *self, PyObject *args) {
-  Py_ssize_t index;
-  PyObject* py_index = PVector_index(self, args);
+  Py_ssize_t i;
+  PyObject *value;
+
+  if(!PyArg_ParseTuple(args, "O:remove", &value)) {
+    return NULL;
+  }
 
-  if(py_index != NULL) {
-      index = PyLong_AsSsize_t(py_index);
-    Py_DECREF(py_index);
-    return internalDelete(self, index, NULL);
+  for (i = 0; i < self->count; i++) {
+    int cmp = PyObject_RichCompareBool(_get_item(self, i), value, Py_EQ);
+    if (cmp > 0) {
+      return internalDelete(self, i, NULL);
+    } else if (cmp < 0) {
+      return NULL;
+    }
   }
 
   PyErr_SetString(PyExc_ValueError, "PVector.remove(x): x not in vector");
-- 
2.43.0


From ddab62304731fe98d5a67b6df5d1c42b6fd09cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:43 +0000
Subject: [PATCH 06/37] fix: accept None as stop in C PVector.delete

None is the documented default value and accepted by the Python implementation.
---
 pvectorcmodule.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index e5f0c49..687e543 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1046,7 +1046,7 @@ static PyObject* internalDelete(PVector *self, Py_ssize_t index, PyObject *stop_
     index += self->count;
   }
 
-  if (stop_obj != NULL) {
+  if (stop_obj != NULL && stop_obj != Py_None) {
     if (PyIndex_Check(stop_obj)) {
       stop = PyNumber_AsSsize_t(stop_obj, PyExc_IndexError);
       if (stop == -1 && PyErr_Occurred()) {
-- 
2.43.0


From 91215c3e3cbccccddcf9318bc735d485a9a8ca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:43 +0000
Subject: [PATCH 07/37] fix: same hash for C vectors as for equal Python and
 checked vectors

---
 pvectorcmodule.c | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 687e543..459133c 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -273,26 +273,18 @@ static PyObject *PVector_repr(PVector *self) {
 
 
 static Py_hash_t PVector_hash(PVector *self) {
-  // Follows the pattern of the tuple hash
-  long x, y;
-  Py_ssize_t i;
-  long mult = 1000003L;
-  x = 0x456789L;
-  for(i=0; i<self->count; i++) {
-      y = PyObject_Hash(_get_item(self, i));
-      if (y == -1) {
-        return -1;
-      }
-      x = (x ^ y) * mult;
-      mult += (long)(82520L + i + i);
-  }
-
-  x += 97531L;
-  if(x == -1) {
-    x = -2;
+  // Must be the same as for the Python implementation since vectors of the two
+  // implementations may be equal.
+  PyObject *list = PVector_toList(self);
+  PyObject *tuple = PyList_AsTuple(list);
+  Py_DECREF(list);
+  if(tuple == NULL) {
+    return -1;
   }
 
-  return x;
+  Py_hash_t result = PyObject_Hash(tuple);
+  Py_DECREF(tuple);
+  return result;
 }
 
 static PyObject* compareSizes(long vlen, long wlen, int op) {
-- 
2.43.0


From 2bc8899fa5735afbd04ff76febcc8ab25898d99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:43 +0000
Subject: [PATCH 08/37] fix: is_dirty() of vector evolvers after delete

The C evolver claimed to be clean after a delete, the Python one when the last
element was deleted.
---
 pvectorcmodule.c       | 2 +-
 pyrsistent/_pvector.py | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 459133c..92848ea 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1475,7 +1475,7 @@ static int internalPVectorDelete(PVectorEvolver *self, Py_ssize_t position) {
   PVector *oldOriginalVector = self->originalVector;
   PVector *oldNewVector = self->newVector;
   self->originalVector = temp2;
-  self->newVector = self->originalVector;
+  self->newVector = rawCopyPVector(temp2);  // Not the original any more, it is dirty
   if(oldOriginalVector != oldNewVector) {
     cleanVector(oldNewVector);
     Py_DECREF(oldNewVector);
diff --git a/pyrsistent/_pvector.py b/pyrsistent/_pvector.py
index 51d8a22..bedac3d 100644
--- a/pyrsistent/_pvector.py
+++ b/pyrsistent/_pvector.py
@@ -248,6 +248,8 @@ class PythonPVector(object):
                 self._extra_tail = l
 
             del self._extra_tail[key]
+            # The evolver is dirty even if the last element was deleted
+            self._dirty_nodes[None] = True
 
         def persistent(self):
             result = self._orig_pvector
-- 
2.43.0


From bbc0e2119dd75bde3cf6c3aee8dc72e5d70426e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:58 +0000
Subject: [PATCH 09/37] fix: all or nothing extend for Python vector evolver

Elements were kept when the iterator raised, unlike in the C implementation.
---
 pyrsistent/_pvector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pvector.py b/pyrsistent/_pvector.py
index bedac3d..2dda633 100644
--- a/pyrsistent/_pvector.py
+++ b/pyrsistent/_pvector.py
@@ -186,7 +186,9 @@ class PythonPVector(object):
             return self
 
         def extend(self, iterable):
-            self._extra_tail.extend(iterable)
+            # Realize the iterable first, the iteration may fail or use the evolver
+            elements = list(iterable)
+            self._extra_tail.extend(elements)
             return self
 
         def set(self, index, val):
-- 
2.43.0


From f044bd48426b9f03aa5475c1d91a5b11c56eb378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:58 +0000
Subject: [PATCH 10/37] fix: repeated persistent() on set and checked map/set
 evolvers

The second call returned the original collection without any of the updates.
---
 pyrsistent/_checked_types.py | 4 ++--
 pyrsistent/_pset.py          | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 56146b5..0942f91 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -428,7 +428,7 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or self._destination_class != type(self._original_pset):
-                return self._destination_class(self._pmap_evolver.persistent())
+                self._original_pset = self._destination_class(self._pmap_evolver.persistent())
 
             return self._original_pset
 
@@ -542,6 +542,6 @@ class CheckedPMap(PMap[KT, VT_co], CheckedType, metaclass=_CheckedMapTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or type(self._original_pmap) != self._destination_class:
-                return self._destination_class(self._buckets_evolver.persistent(), self._size)
+                self._original_pmap = self._destination_class(self._buckets_evolver.persistent(), self._size)
 
             return self._original_pmap
diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 6247607..2d67178 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -129,10 +129,10 @@ class PSet(Generic[T_co]):
             return self._pmap_evolver.is_dirty()
 
         def persistent(self):
-            if not self.is_dirty():
-                return  self._original_pset
+            if self.is_dirty():
+                self._original_pset = PSet(self._pmap_evolver.persistent())
 
-            return PSet(self._pmap_evolver.persistent())
+            return self._original_pset
 
         def __len__(self):
             return len(self._pmap_evolver)
-- 
2.43.0


From 48df22f199b9fc57af294e5629e3655a6bdb9715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:58 +0000
Subject: [PATCH 11/37] fix: record evolver usable after a missing field has
 been supplied

A failed persistent() made all later calls fail with the same missing fields.
---
 pyrsistent/_precord.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyrsistent/_precord.py b/pyrsistent/_precord.py
index dda1eba..62b16cc 100644
--- a/pyrsistent/_precord.py
+++ b/pyrsistent/_precord.py
@@ -148,12 +148,13 @@ class _PRecordEvolver(PMap._Evolver):
         else:
             result = pm
 
+        missing_fields = list(self._missing_fields)
         if cls._precord_mandatory_fields:
-            self._missing_fields += tuple('{0}.{1}'.format(cls.__name__, f) for f
+            missing_fields += tuple('{0}.{1}'.format(cls.__name__, f) for f
                                           in (cls._precord_mandatory_fields - set(result.keys())))
 
-        if self._invariant_error_codes or self._missing_fields:
-            raise InvariantException(tuple(self._invariant_error_codes), tuple(self._missing_fields),
+        if self._invariant_error_codes or missing_fields:
+            raise InvariantException(tuple(self._invariant_error_codes), tuple(missing_fields),
                                      'Field invariant failed')
 
         check_global_invariants(result, cls._precord_invariants)
-- 
2.43.0


From 82a3b8a1e22db2d84f87fddf5d9f66ba01310582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:58 +0000
Subject: [PATCH 12/37] fix: hash and equality of maps containing the key
 '_cached_hash'

---
 pyrsistent/_pmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index 0d82c43..75eac1d 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -151,6 +151,7 @@ class PMap(Generic[KT, VT_co]):
         self = super(PMap, cls).__new__(cls)
         self._size = size
         self._buckets = buckets
+        self._cached_hash = None
         return self
 
     @staticmethod
@@ -247,7 +248,7 @@ class PMap(Generic[KT, VT_co]):
         if len(self) != len(other):
             return False
         if isinstance(other, PMap):
-            if (hasattr(self, '_cached_hash') and hasattr(other, '_cached_hash')
+            if (self._cached_hash is not None and other._cached_hash is not None
                     and self._cached_hash != other._cached_hash):
                 return False
             if self._buckets == other._buckets:
@@ -270,7 +271,7 @@ class PMap(Generic[KT, VT_co]):
         return self.__repr__()
 
     def __hash__(self):
-        if not hasattr(self, '_cached_hash'):
+        if self._cached_hash is None:
             self._cached_hash = hash(frozenset(self.iteritems()))
         return self._cached_hash
 
-- 
2.43.0


From b96ca1a2e8df6ecaa6c95f704b00d3edf2befe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:58 +0000
Subject: [PATCH 13/37] fix: same hash for equal sets

Sets made by PMap.keys() included the values of the map in the hash and the hash
differed from that of an equal frozenset.
---
 pyrsistent/_pset.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 2d67178..8b5533d 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -28,11 +28,12 @@ class PSet(Generic[T_co]):
     >>> s3
     pset([1, 3, 4])
     """
-    __slots__ = ('_map', '__weakref__')
+    __slots__ = ('_map', '__weakref__', '_cached_hash')
 
     def __new__(cls, m):
         self = super(PSet, cls).__new__(cls)
         self._map = m
+        self._cached_hash = None
         return self
 
     def __contains__(self, element):
@@ -54,7 +55,11 @@ class PSet(Generic[T_co]):
         return self.__repr__()
 
     def __hash__(self):
-        return hash(self._map)
+        # Must not depend on the values of the map, see PMap.keys(), and be the same as for
+        # an equal frozenset.
+        if self._cached_hash is None:
+            self._cached_hash = hash(frozenset(self))
+        return self._cached_hash
 
     def __reduce__(self):
         # Pickling support
-- 
2.43.0


From 754b9994f62667f53c09e671684633ffe9570f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:58 +0000
Subject: [PATCH 14/37] fix: keys() of checked maps and records

The set could not be added to since updates of it were subject to the type
checks and invariants of the map.
---
 pyrsistent/_pmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index 75eac1d..ef5abd2 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -229,7 +229,8 @@ class PMap(Generic[KT, VT_co]):
 
     def keys(self):
         from ._pset import PSet
-        return PSet(self)
+        # The set must not be restricted by the checks of checked maps and records
+        return PSet(self if type(self) is PMap else PMap(self._size, self._buckets))
 
     def items(self):
         return PMapItems(self)
-- 
2.43.0


From a27fc8b9a1095007ac41e3d92d631336140ed16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:59 +0000
Subject: [PATCH 15/37] fix: do not lose map evolver updates when hashing fails
 in a reallocation

---
 pyrsistent/_pmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index ef5abd2..8ce89b1 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -444,7 +444,8 @@ class PMap(Generic[KT, VT_co]):
         def _reallocate(self):
             new_size = 2 * len(self._buckets_evolver)
             new_list = new_size * [None]
-            buckets = self._buckets_evolver.persistent()
+            # Leave the buckets evolver untouched until done, hashing the keys may fail.
+            buckets = (self._buckets_evolver[i] for i in range(len(self._buckets_evolver)))
             for k, v in chain.from_iterable(x for x in buckets if x):
                 index = hash(k) % new_size
                 if new_list[index]:
-- 
2.43.0


From 9c9af861071dffc3cdc2c1e9a0442d14b6b7739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:59 +0000
Subject: [PATCH 16/37] fix: slicing of deques with bounds outside of the deque

Bounds were taken modulo the length of the deque, x[:len(x)] was empty and any
slice of an empty deque raised ZeroDivisionError.
---
 pyrsistent/_pdeque.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 0f25936..7a7fea2 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -319,17 +319,12 @@ class PDeque(Generic[T_co]):
 
     def __getitem__(self, index):
         if isinstance(index, slice):
-            if index.step is not None and index.step != 1:
+            start, stop, step = index.indices(self._length)
+            if step != 1:
                 # Too difficult, no structural sharing possible
                 return pdeque(tuple(self)[index], maxlen=self._maxlen)
 
-            result = self
-            if index.start is not None:
-                result = result.popleft(index.start % self._length)
-            if index.stop is not None:
-                result = result.pop(self._length - (index.stop % self._length))
-
-            return result
+            return self.popleft(start).pop(self._length - max(start, stop))
 
         if not isinstance(index, Integral):
             raise TypeError("'%s' object cannot be interpreted as an index" % type(index).__name__)
-- 
2.43.0


From d5a79d4ea4cb57b74a63c10b609e7e2b08df9bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:59 +0000
Subject: [PATCH 17/37] fix: pdeque(..., maxlen=0) must be empty

---
 pyrsistent/_pdeque.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 7a7fea2..011a74f 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -357,7 +357,7 @@ def pdeque(iterable=(), maxlen=None):
     """
     t = tuple(iterable)
     if maxlen is not None:
-        t = t[-maxlen:]
+        t = t[max(len(t) - maxlen, 0):]
     length = len(t)
     pivot = int(length / 2)
     left = plist(t[:pivot])
-- 
2.43.0


From 7a479f15a77eb64e5aac969fd479e0ab89db60c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:59 +0000
Subject: [PATCH 18/37] fix: keep maxlen in PDeque.remove() and reverse()

---
 pyrsistent/_pdeque.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 011a74f..bdf3420 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -272,13 +272,13 @@ class PDeque(Generic[T_co]):
         pdeque([1, 2])
         """
         try:
-            return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1)
+            return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1, self._maxlen)
         except ValueError:
             # Value not found in left list, try the right list
             try:
                 # This is severely inefficient with a double reverse, should perhaps implement a remove_last()?
                 return PDeque(self._left_list,
-                              self._right_list.reverse().remove(elem).reverse(), self._length - 1)
+                              self._right_list.reverse().remove(elem).reverse(), self._length - 1, self._maxlen)
             except ValueError as e:
                 raise ValueError('{0} not found in PDeque'.format(elem)) from e
 
@@ -294,7 +294,7 @@ class PDeque(Generic[T_co]):
         >>> reversed(pdeque([1, 2, 3]))
         pdeque([3, 2, 1])
         """
-        return PDeque(self._right_list, self._left_list, self._length)
+        return PDeque(self._right_list, self._left_list, self._length, self._maxlen)
     __reversed__ = reverse
 
     def rotate(self, steps):
-- 
2.43.0


From 15b1c2c4aa74fd37b2869bf1ee2041b70b67db33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:59 +0000
Subject: [PATCH 19/37] fix: rotate deque more steps than it has elements

---
 pyrsistent/_pdeque.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index bdf3420..c1d74e8 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -307,6 +307,10 @@ class PDeque(Generic[T_co]):
         >>> x.rotate(-2)
         pdeque([3, 1, 2])
         """
+        if self._length:
+            # Going all the way around makes no difference
+            steps = steps % self._length if steps >= 0 else -(-steps % self._length)
+
         popped_deque = self.pop(steps)
         if steps >= 0:
             return popped_deque.extendleft(islice(self.reverse(), steps))
-- 
2.43.0


From ebb18c39630d6ebd8298a79b74da43bef4462103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:59 +0000
Subject: [PATCH 20/37] fix: negative start when slicing PList

---
 pyrsistent/_plist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_plist.py b/pyrsistent/_plist.py
index 322e15d..5820ea0 100644
--- a/pyrsistent/_plist.py
+++ b/pyrsistent/_plist.py
@@ -168,7 +168,7 @@ class _PListBase(object):
 
         if isinstance(index, slice):
             if index.start is not None and index.stop is None and (index.step is None or index.step == 1):
-                return self._drop(index.start)
+                return self._drop(index.start if index.start >= 0 else max(index.start + len(self), 0))
 
             # Take the easy way out for all other slicing cases, not much structural reuse possible anyway
             return plist(tuple(self)[index])
-- 
2.43.0


From 57df1069e1ee61804bdf1a7a9cb85ef4f4977132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:59 +0000
Subject: [PATCH 21/37] fix: inherit types of checked collections from all
 ancestors

Only the types declared in direct base classes were considered, others unchecked.
---
 pyrsistent/_checked_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 0942f91..db89abf 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -106,7 +106,7 @@ def maybe_parse_many_user_types(ts):
 def _store_types(dct, bases, destination_name, source_name):
     maybe_types = maybe_parse_many_user_types([
         d[source_name]
-        for d in ([dct] + [b.__dict__ for b in bases]) if source_name in d
+        for d in ([dct] + list(_all_dicts(bases))) if source_name in d
     ])
 
     dct[destination_name] = maybe_types
-- 
2.43.0


From b5ce538b2bbfcda2894a5544cb00ac6184428f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:59 +0000
Subject: [PATCH 22/37] fix: pass ignore_extra on to keys and values of checked
 maps

---
 pyrsistent/_checked_types.py | 4 ++--
 pyrsistent/_field_common.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index db89abf..aed318d 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -510,8 +510,8 @@ class CheckedPMap(PMap[KT, VT_co], CheckedType, metaclass=_CheckedMapTypeMeta):
         checked_value_type = next((t for t in value_types if issubclass(t, CheckedType)), None)
 
         if checked_key_type or checked_value_type:
-            return cls(dict((checked_key_type.create(key) if checked_key_type and not any(isinstance(key, t) for t in key_types) else key,
-                             checked_value_type.create(value) if checked_value_type and not any(isinstance(value, t) for t in value_types) else value)
+            return cls(dict((checked_key_type.create(key, ignore_extra=ignore_extra) if checked_key_type and not any(isinstance(key, t) for t in key_types) else key,
+                             checked_value_type.create(value, ignore_extra=ignore_extra) if checked_value_type and not any(isinstance(value, t) for t in value_types) else value)
                             for key, value in source_data.items()))
 
         return cls(source_data)
diff --git a/pyrsistent/_field_common.py b/pyrsistent/_field_common.py
index 508dd2f..5a7b7a7 100644
--- a/pyrsistent/_field_common.py
+++ b/pyrsistent/_field_common.py
@@ -319,11 +319,11 @@ def pmap_field(key_type, value_type, optional=False, invariant=PFIELD_NO_INVARIA
     TheMap = _make_pmap_field_type(key_type, value_type)
 
     if optional:
-        def factory(argument):
+        def factory(argument, _factory_fields=None, ignore_extra=False):
             if argument is None:
                 return None
             else:
-                return TheMap.create(argument)
+                return TheMap.create(argument, _factory_fields=_factory_fields, ignore_extra=ignore_extra)
     else:
         factory = TheMap.create
 
-- 
2.43.0


From 6daebf03b21e2fdce745ae3e559f2c6798c61906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:59 +0000
Subject: [PATCH 23/37] fix: pass format on when serializing elements of
 checked collections

---
 pyrsistent/_checked_types.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index aed318d..cfefed3 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -172,9 +172,9 @@ class _CheckedTypeMeta(ABCMeta):
         _store_types(dct, bases, '_checked_types', '__type__')
         store_invariants(dct, bases, '_checked_invariants', '__invariant__')
 
-        def default_serializer(self, _, value):
+        def default_serializer(self, format, value):
             if isinstance(value, CheckedType):
-                return value.serialize()
+                return value.serialize(format)
             return value
 
         dct.setdefault('__serializer__', default_serializer)
@@ -439,14 +439,14 @@ class _CheckedMapTypeMeta(type):
         _store_types(dct, bases, '_checked_value_types', '__value_type__')
         store_invariants(dct, bases, '_checked_invariants', '__invariant__')
 
-        def default_serializer(self, _, key, value):
+        def default_serializer(self, format, key, value):
             sk = key
             if isinstance(key, CheckedType):
-                sk = key.serialize()
+                sk = key.serialize(format)
 
             sv = value
             if isinstance(value, CheckedType):
-                sv = value.serialize()
+                sv = value.serialize(format)
 
             return sk, sv
 
-- 
2.43.0


From 57dbd63180934032a55ce8a3b372adc03e4aab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:00 +0000
Subject: [PATCH 24/37] fix: inherit custom serializers of checked collections

Subclasses of a class with a custom __serializer__ got the default one.
---
 pyrsistent/_checked_types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index cfefed3..1bbb876 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -177,7 +177,8 @@ class _CheckedTypeMeta(ABCMeta):
                 return value.serialize(format)
             return value
 
-        dct.setdefault('__serializer__', default_serializer)
+        if not any(hasattr(b, '__serializer__') for b in bases):
+            dct.setdefault('__serializer__', default_serializer)
 
         dct['__slots__'] = ()
 
@@ -450,7 +451,8 @@ class _CheckedMapTypeMeta(type):
 
             return sk, sv
 
-        dct.setdefault('__serializer__', default_serializer)
+        if not any(hasattr(b, '__serializer__') for b in bases):
+            dct.setdefault('__serializer__', default_serializer)
 
         dct['__slots__'] = ()
 
-- 
2.43.0


From 30f2ba630fcab1bbc1ea80bd901f74ae1ad0d353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:00 +0000
Subject: [PATCH 25/37] hook: size of node cache can be set at build time
 (NODE_CACHE_MAX_SIZE)

---
 pvectorcmodule.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 92848ea..67b372e 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -33,7 +33,10 @@ typedef struct {
   unsigned int refCount;
 } VNode;
 
+// Possible to override at build time, 0 exposes stale nodes to memory checkers.
+#ifndef NODE_CACHE_MAX_SIZE
 #define NODE_CACHE_MAX_SIZE 1024
+#endif
 
 typedef struct {
   unsigned int size;
-- 
2.43.0


From 053edff3798079f022e8d7f4c3f4c1194c9ba303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:43 +0000
Subject: [PATCH 26/37] fix: symmetric difference of a PSet and a built in set

pset ^ set raised TypeError since Set.__xor__ computes other - self, which needs __rsub__.
---
 pyrsistent/_pset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 8b5533d..c96021e 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -190,6 +190,7 @@ class PSet(Generic[T_co]):
     __and__ = Set.__and__
     __or__ = Set.__or__
     __sub__ = Set.__sub__
+    __rsub__ = Set.__rsub__  # Needed by __xor__ if the other operand is a built in set
     __xor__ = Set.__xor__
 
     issubset = __le__
-- 
2.43.0


From 1e5cea389d285aca0394d8f59efa413868f76a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:56 +0000
Subject: [PATCH 27/37] fix: Python vector evolver not dirty after a failed
 delete

An out of range delete switched the evolver to its list representation before failing. It then claimed to be dirty
and persistent() returned a copy rather than the original.
---
 pyrsistent/_pvector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pvector.py b/pyrsistent/_pvector.py
index 2dda633..8e553f4 100644
--- a/pyrsistent/_pvector.py
+++ b/pyrsistent/_pvector.py
@@ -246,10 +246,12 @@ class PythonPVector(object):
                 # All structural sharing bets are off, base evolver on _extra_tail only
                 l = PythonPVector(self._count, self._shift, self._root, self._tail).tolist()
                 l.extend(self._extra_tail)
+                del l[key]
                 self._reset(_EMPTY_PVECTOR)
                 self._extra_tail = l
+            else:
+                del self._extra_tail[key]
 
-            del self._extra_tail[key]
             # The evolver is dirty even if the last element was deleted
             self._dirty_nodes[None] = True
 
-- 
2.43.0


From a53bddce6a7429359da02d57913580751a3cc88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:35 +0000
Subject: [PATCH 28/37] fix: check the contents of plain vectors and maps
 passed to checked collections

CheckedPVector(pvector) with the Python vector and CheckedPSet(pmap) skipped
all type and invariant checks, since the constructors took their argument for
already checked contents from an evolver.
---
 pyrsistent/_checked_types.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 1bbb876..60686b2 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -277,6 +277,18 @@ def _checked_type_create(cls, source_data, _factory_fields=None, ignore_extra=Fa
 
     return cls(source_data)
 
+
+class _CheckedContents(object):
+    """
+    Wrapper used by the evolvers to hand over contents that has already been checked to
+    the constructors of CheckedPVector and CheckedPSet.
+    """
+    __slots__ = ('contents',)
+
+    def __init__(self, contents):
+        self.contents = contents
+
+
 class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_CheckedTypeMeta):
     """
     A CheckedPVector is a PVector which allows specifying type and invariant checks.
@@ -292,7 +304,8 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
     __slots__ = ()
 
     def __new__(cls, initial=()):
-        if type(initial) == PythonPVector:
+        if type(initial) is _CheckedContents:
+            initial = initial.contents
             return super(CheckedPVector, cls).__new__(cls, initial._count, initial._shift, initial._root, initial._tail)
 
         return CheckedPVector.Evolver(cls, python_pvector()).extend(initial).persistent()
@@ -349,7 +362,7 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
             result = self._orig_pvector
             if self.is_dirty() or (self._destination_class != type(self._orig_pvector)):
                 pv = super(CheckedPVector.Evolver, self).persistent().extend(self._extra_tail)
-                result = self._destination_class(pv)
+                result = self._destination_class(_CheckedContents(pv))
                 self._reset(result)
 
             return result
@@ -378,8 +391,8 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
     __slots__ = ()
 
     def __new__(cls, initial=()):
-        if type(initial) is PMap:
-            return super(CheckedPSet, cls).__new__(cls, initial)
+        if type(initial) is _CheckedContents:
+            return super(CheckedPSet, cls).__new__(cls, initial.contents)
 
         evolver = CheckedPSet.Evolver(cls, pset())
         for e in initial:
@@ -429,7 +442,7 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or self._destination_class != type(self._original_pset):
-                self._original_pset = self._destination_class(self._pmap_evolver.persistent())
+                self._original_pset = self._destination_class(_CheckedContents(self._pmap_evolver.persistent()))
 
             return self._original_pset
 
-- 
2.43.0


From 6583e2483d9db1c4cc81328ae072d83dc7bba0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:50 +0000
Subject: [PATCH 29/37] fix: allow immutable() members called self to be set

---
 pyrsistent/_immutable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_immutable.py b/pyrsistent/_immutable.py
index d23deca..b30c327 100644
--- a/pyrsistent/_immutable.py
+++ b/pyrsistent/_immutable.py
@@ -68,7 +68,7 @@ class {class_name}(namedtuple('ImmutableBase', [{quoted_members}])):
     def __repr__(self):
         return super({class_name}, self).__repr__().replace('ImmutableBase', self.__class__.__name__)
 
-    def set(self, **kwargs):
+    def set(self, /, **kwargs):
         if not kwargs:
             return self
 
-- 
2.43.0


From ab0b4c2e0094c9a07c3f2bc80a64bab398d839b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:34 +0000
Subject: [PATCH 30/37] fix: pickle PBag with protocols 0 and 1

---
 pyrsistent/_pbag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyrsistent/_pbag.py b/pyrsistent/_pbag.py
index 50001f1..425cdff 100644
--- a/pyrsistent/_pbag.py
+++ b/pyrsistent/_pbag.py
@@ -38,6 +38,10 @@ class PBag(Generic[T_co]):
     def __init__(self, counts):
         self._counts = counts
 
+    def __reduce__(self):
+        # Pickling support
+        return PBag, (self._counts,)
+
     def add(self, element):
         """
         Add an element to the bag.
-- 
2.43.0


From 6383e1f9e80957483813dfa7cdb3d93b334e8a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:25 +0000
Subject: [PATCH 31/37] fix: size the hash table of sets built from an iterable
 by the number of elements

pset(iterable) and the set operators always used eight buckets unless told
otherwise, lookups and updates of large sets were hence linear in the size.
---
 pyrsistent/_pset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index c96021e..f377b23 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -67,7 +67,8 @@ class PSet(Generic[T_co]):
 
     @classmethod
     def _from_iterable(cls, it, pre_size=8):
-        return PSet(pmap(dict((k, True) for k in it), pre_size=pre_size))
+        elements = dict((k, True) for k in it)
+        return PSet(pmap(elements, pre_size=max(pre_size, 2 * len(elements))))
 
     def add(self, element):
         """
-- 
2.43.0


From 63826ae0a2f57a87d67b177b7e534e360a621ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:29 +0000
Subject: [PATCH 32/37] fix: size the hash table of maps built from an iterator
 by the number of items

---
 pyrsistent/_pmap.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index 8ce89b1..9d72ace 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -526,6 +526,12 @@ Hashable.register(PMap)
 
 
 def _turbo_mapping(initial, pre_size):
+    if not isinstance(initial, Mapping):
+        # Make a dictionary of the initial data if it isn't already,
+        # that will save us some job further down since we can assume no
+        # key collisions
+        initial = dict(initial)
+
     if pre_size:
         size = pre_size
     else:
@@ -538,12 +544,6 @@ def _turbo_mapping(initial, pre_size):
 
     buckets = size * [None]
 
-    if not isinstance(initial, Mapping):
-        # Make a dictionary of the initial data if it isn't already,
-        # that will save us some job further down since we can assume no
-        # key collisions
-        initial = dict(initial)
-
     for k, v in initial.items():
         h = hash(k)
         index = h % size
-- 
2.43.0


From db090b06fbbed55cb3c9c5aac091a03d5d3b8aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:12 +0000
Subject: [PATCH 33/37] fix: PMap.discard swallows a KeyError raised by an
 invariant of a record

---
 pyrsistent/_pmap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index 9d72ace..8c00d1c 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -314,10 +314,11 @@ class PMap(Generic[KT, VT_co]):
         >>> m1 is m1.discard('c')
         True
         """
-        try:
+        # Not by catching KeyError, which may come from an invariant that misses the removed field
+        if key in self:
             return self.remove(key)
-        except KeyError:
-            return self
+
+        return self
 
     def update(self, *maps):
         """
-- 
2.43.0


From 01429ede4fe71727f94217446c39b9ec5f9a3b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:30 +0000
Subject: [PATCH 34/37] fix: the Python and the C vector accept the same index,
 bound and repetition objects

---
 pvectorcmodule.c       | 14 ++++++++++++--
 pyrsistent/_pvector.py | 20 +++++++++-----------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 67b372e..870ee6c 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -454,14 +454,24 @@ static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
 }
 
 
+static int indexBound(PyObject *o, void *result) {
+  // As in list.index(), None is not a bound
+  if (o == Py_None) {
+    PyErr_SetString(PyExc_TypeError, "slice indices must be integers or have an __index__ method");
+    return 0;
+  }
+
+  return _PyEval_SliceIndex(o, (Py_ssize_t*)result);
+}
+
 static PyObject* PVector_index(PVector *self, PyObject *args) {
   // A direct rip-off of the tuple version
   Py_ssize_t i, start=0, stop=self->count;
   PyObject *value;
   
   if (!PyArg_ParseTuple(args, "O|O&O&:index", &value,
-			_PyEval_SliceIndex, &start,
-			_PyEval_SliceIndex, &stop)) {
+			indexBound, &start,
+			indexBound, &stop)) {
     return NULL;
   }
   
diff --git a/pyrsistent/_pvector.py b/pyrsistent/_pvector.py
index 8e553f4..bd14a75 100644
--- a/pyrsistent/_pvector.py
+++ b/pyrsistent/_pvector.py
@@ -1,6 +1,5 @@
 from abc import abstractmethod, ABCMeta
 from collections.abc import Sequence, Hashable
-from numbers import Integral
 import operator
 from typing import TypeVar, Generic
 
@@ -25,7 +24,7 @@ def _index_or_slice(index, stop):
     if stop is None:
         return index
 
-    return slice(index, stop)
+    return slice(operator.index(index), stop)
 
 
 class PythonPVector(object):
@@ -59,6 +58,7 @@ class PythonPVector(object):
             # slicing it but it is the fastest way I've found to date, and it's easy :-)
             return _EMPTY_PVECTOR.extend(self.tolist()[index])
 
+        index = operator.index(index)
         if index < 0:
             index += self._count
 
@@ -97,6 +97,10 @@ class PythonPVector(object):
         return compare_pvector(self, other, operator.le)
 
     def __mul__(self, times):
+        if not hasattr(times, '__index__'):
+            return NotImplemented
+
+        times = operator.index(times)
         if times <= 0 or self is _EMPTY_PVECTOR:
             return _EMPTY_PVECTOR
 
@@ -159,9 +163,7 @@ class PythonPVector(object):
             self._reset(v)
 
         def __getitem__(self, index):
-            if not isinstance(index, Integral):
-                raise TypeError("'%s' object cannot be interpreted as an index" % type(index).__name__)
-
+            index = operator.index(index)
             if index < 0:
                 index += self._count + len(self._extra_tail)
 
@@ -196,9 +198,7 @@ class PythonPVector(object):
             return self
 
         def __setitem__(self, index, val):
-            if not isinstance(index, Integral):
-                raise TypeError("'%s' object cannot be interpreted as an index" % type(index).__name__)
-
+            index = operator.index(index)
             if index < 0:
                 index += self._count + len(self._extra_tail)
 
@@ -277,9 +277,7 @@ class PythonPVector(object):
         # a ~5 X performance penalty on PyPy (considered the primary platform for this implementation
         #  of PVector) so we're keeping this implementation for now.
 
-        if not isinstance(i, Integral):
-            raise TypeError("'%s' object cannot be interpreted as an index" % type(i).__name__)
-
+        i = operator.index(i)
         if i < 0:
             i += self._count
 
-- 
2.43.0


From 585ae753b8d5d23466e66baeebd8652ab4fca6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:39 +0000
Subject: [PATCH 35/37] fix: the Python vector never equals an object without a
 length, whatever that object says

---
 pyrsistent/_pvector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_pvector.py b/pyrsistent/_pvector.py
index bd14a75..993cafc 100644
--- a/pyrsistent/_pvector.py
+++ b/pyrsistent/_pvector.py
@@ -82,7 +82,7 @@ class PythonPVector(object):
         return not self.__eq__(other)
 
     def __eq__(self, other):
-        return self is other or (hasattr(other, '__len__') and self._count == len(other)) and compare_pvector(self, other, operator.eq)
+        return self is other or (not isinstance(other, PVector) or self._count == len(other)) and compare_pvector(self, other, operator.eq)
 
     def __gt__(self, other):
         return compare_pvector(self, other, operator.gt)
-- 
2.43.0


From a52df61be3d88a753fd8811b39944721d5dd329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:40 +0000
Subject: [PATCH 36/37] fix: integers beyond the index range are treated alike
 by the C and the Python vector

set() with such an index raised OverflowError in C and IndexError in Python,
delete() with such a bound raised OverflowError in C, and a Python vector
multiplied by a huge negative number differed from a list.
---
 pvectorcmodule.c       | 19 +++++++++++++++----
 pyrsistent/_pvector.py |  2 +-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 870ee6c..1c86896 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1009,10 +1009,15 @@ static PyObject* PVector_transform(PVector *self, PyObject *obj) {
 */
 static PyObject* PVector_set(PVector *self, PyObject *args) {
   PyObject *argObj = NULL;  /* argument to insert */
+  PyObject *positionObj;
   Py_ssize_t position;
 
-  /* The n parses for size, the O parses for a Python object */
-  if(!PyArg_ParseTuple(args, "nO", &position, &argObj)) {
+  if(!PyArg_ParseTuple(args, "OO", &positionObj, &argObj)) {
+    return NULL;
+  }
+
+  position = PyNumber_AsSsize_t(positionObj, PyExc_IndexError);
+  if (position == -1 && PyErr_Occurred()) {
     return NULL;
   }
 
@@ -1053,7 +1058,7 @@ static PyObject* internalDelete(PVector *self, Py_ssize_t index, PyObject *stop_
 
   if (stop_obj != NULL && stop_obj != Py_None) {
     if (PyIndex_Check(stop_obj)) {
-      stop = PyNumber_AsSsize_t(stop_obj, PyExc_IndexError);
+      stop = PyNumber_AsSsize_t(stop_obj, NULL);  // Clipped, as in a slice
       if (stop == -1 && PyErr_Occurred()) {
         return NULL;
       }
@@ -1086,9 +1091,15 @@ static PyObject* internalDelete(PVector *self, Py_ssize_t index, PyObject *stop_
 
 static PyObject* PVector_delete(PVector *self, PyObject *args) {
   Py_ssize_t index;
+  PyObject *index_obj;
   PyObject *stop_obj = NULL;
 
-  if(!PyArg_ParseTuple(args, "n|O:delete", &index, &stop_obj)) {
+  if(!PyArg_ParseTuple(args, "O|O:delete", &index_obj, &stop_obj)) {
+    return NULL;
+  }
+
+  index = PyNumber_AsSsize_t(index_obj, NULL);
+  if (index == -1 && PyErr_Occurred()) {
     return NULL;
   }
 
diff --git a/pyrsistent/_pvector.py b/pyrsistent/_pvector.py
index 993cafc..33315aa 100644
--- a/pyrsistent/_pvector.py
+++ b/pyrsistent/_pvector.py
@@ -102,7 +102,7 @@ class PythonPVector(object):
 
         times = operator.index(times)
         if times <= 0 or self is _EMPTY_PVECTOR:
-            return _EMPTY_PVECTOR
+            return _EMPTY_PVECTOR.extend(times * [])
 
         if times == 1:
             return self
-- 
2.43.0


From 187eabcd88c622297ed9a0ce157f8540863e9f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:40 +0000
Subject: [PATCH 37/37] fix: plist slicing or indexing with a huge start ends
 at the end of the list

_drop() kept counting after the list had run out, so that
plist([1])[10**30:] never returned.
---
 pyrsistent/_plist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_plist.py b/pyrsistent/_plist.py
index 5820ea0..4490306 100644
--- a/pyrsistent/_plist.py
+++ b/pyrsistent/_plist.py
@@ -190,7 +190,7 @@ class _PListBase(object):
             raise IndexError("PList index out of range")
 
         head = self
-        while count > 0:
+        while count > 0 and head:
             head = head.rest
             count -= 1
 
-- 
2.43.0

