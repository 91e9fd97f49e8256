From e219862855b10c19d8d4f999992677c2d893c7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 01/85] fix: hash negative integer keys instead of failing (and
 never clash with the -1 error code)

---
 src/dbzero/bindings/python/PyHash.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/bindings/python/PyHash.cpp b/src/dbzero/bindings/python/PyHash.cpp
index 7d9a42c..f41460f 100644
--- a/src/dbzero/bindings/python/PyHash.cpp
+++ b/src/dbzero/bindings/python/PyHash.cpp
@@ -93,6 +93,21 @@ namespace db0::python
         return type->getAddress().getValue();
     }
 
+    // INTEGER specialization, the whole range of storable (signed 64-bit) values is hashable
+    template <> std::int64_t getPyHashImpl<TypeId::INTEGER>(db0::swine_ptr<Fixture> &, PyObject *key)
+    {
+        auto value = PyLong_AsLongLong(key);
+        if (value == -1) {
+            if (PyErr_Occurred()) {
+                PyErr_Clear();
+                THROWF(db0::InputException) << "Integer key out of range" << THROWF_END;
+            }
+            // NOTE: -1 is reserved to signal an error (same as in CPython)
+            return -2;
+        }
+        return value;
+    }
+
     std::int64_t getPyHashImpl_for_simple_obj(db0::swine_ptr<Fixture> &, PyObject *key) {
         return PyToolkit::getTypeManager().extractUInt64(key);
     }
@@ -118,7 +133,7 @@ namespace db0::python
         functions[static_cast<int>(TypeId::DATE)] = getPyHashImpl_for_simple_obj;
         functions[static_cast<int>(TypeId::TIME)] = getPyHashImpl_for_simple_obj;
         functions[static_cast<int>(TypeId::TIME_TZ)] = getPyHashImpl_for_simple_obj;
-        functions[static_cast<int>(TypeId::INTEGER)] = getPyHashImpl_for_simple_obj;
+        functions[static_cast<int>(TypeId::INTEGER)] = getPyHashImpl<TypeId::INTEGER>;
         functions[static_cast<int>(TypeId::DECIMAL)] = getPyHashImpl_for_simple_obj;
     }
 
-- 
2.43.0


From 1be11d27d32543229d51f34c05af06398bf978e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 02/85] fix: list pop/remove keep the order of elements and
 release the removed element

---
 .../python/collections/CollectionMethods.hpp  | 19 +++++++++++++------
 src/dbzero/object_model/list/List.cpp         | 14 +++++++++++++-
 src/dbzero/object_model/list/List.hpp         |  2 ++
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/CollectionMethods.hpp b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
index 37ece7f..a1a4e56 100644
--- a/src/dbzero/bindings/python/collections/CollectionMethods.hpp
+++ b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
@@ -141,19 +141,26 @@ namespace db0::python
     template<typename ObjectT>
     PyObject *tryObjectT_pop(ObjectT *py_obj, PyObject *const *args, Py_ssize_t nargs)
     {
-        std::size_t index;
-        if (nargs == 0) {
-            index = py_obj->ext().size() -1;
-        } else if (nargs == 1) {
+        Py_ssize_t index = -1;
+        if (nargs == 1) {
             index = PyLong_AsLong(args[0]);
             if (PyErr_Occurred()) {
                 return nullptr;
             }
-        } else {
+        } else if (nargs != 0) {
             PyErr_SetString(PyExc_TypeError, "pop() takes zero or one argument.");
             return NULL;
         }
 
+        Py_ssize_t size = py_obj->ext().size();
+        if (index < 0) {
+            index += size;
+        }
+        if (index < 0 || index >= size) {
+            PyErr_SetString(PyExc_IndexError, size ? "pop index out of range" : "pop from empty list");
+            return nullptr;
+        }
+
         db0::FixtureLock lock(py_obj->ext().getFixture());
         return py_obj->modifyExt().pop(lock, index).steal();
     }
@@ -170,7 +177,7 @@ namespace db0::python
     {
         auto index = py_obj->ext().index(args[0]);
         db0::FixtureLock lock(py_obj->ext().getFixture());
-        py_obj->modifyExt().swapAndPop(lock, {index});
+        py_obj->modifyExt().remove(lock, index);
         Py_RETURN_NONE;
     }
 
diff --git a/src/dbzero/object_model/list/List.cpp b/src/dbzero/object_model/list/List.cpp
index d3643f8..2ccae04 100644
--- a/src/dbzero/object_model/list/List.cpp
+++ b/src/dbzero/object_model/list/List.cpp
@@ -86,10 +86,22 @@ namespace db0::object_model
         }
         auto [storage_class, value] = (*this)[i];
         auto member = unloadMember<LangToolkit>(*fixture, storage_class, value, 0, this->getMemberFlags());
-        this->swapAndPop(fixture, {i});
+        this->erase(i);
+        unrefMember<LangToolkit>(*fixture, storage_class, value);
         restoreIterators();
         return member;
     }
+
+    void List::remove(FixtureLock &fixture, std::size_t i)
+    {
+        if (i >= size()) {
+            THROWF(db0::IndexException) << "Index out of range: " << i;
+        }
+        auto [storage_class, value] = (*this)[i];
+        this->erase(i);
+        unrefMember<LangToolkit>(*fixture, storage_class, value);
+        restoreIterators();
+    }
     
     void List::setItem(FixtureLock &fixture, std::size_t i, ObjectPtr lang_value)
     {
diff --git a/src/dbzero/object_model/list/List.hpp b/src/dbzero/object_model/list/List.hpp
index e8f86ff..1dad565 100644
--- a/src/dbzero/object_model/list/List.hpp
+++ b/src/dbzero/object_model/list/List.hpp
@@ -63,6 +63,8 @@ namespace db0::object_model
         
         void clear(FixtureLock &);
 
+        // Remove i-th element (preserving the order of the remaining ones)
+        void remove(FixtureLock &, std::size_t i);
         void swapAndPop(FixtureLock &, const std::vector<uint64_t> &element_numbers);
 
         void moveTo(db0::swine_ptr<Fixture> &);
-- 
2.43.0


From a85a9f0b5fc108355b061bace285a6895d791ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 03/85] fix: lists / bytearrays of different sizes compare as
 not equal

---
 src/dbzero/object_model/bytes/ByteArray.cpp | 3 ---
 src/dbzero/object_model/list/List.cpp       | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/src/dbzero/object_model/bytes/ByteArray.cpp b/src/dbzero/object_model/bytes/ByteArray.cpp
index 2ccd65b..2524bd3 100644
--- a/src/dbzero/object_model/bytes/ByteArray.cpp
+++ b/src/dbzero/object_model/bytes/ByteArray.cpp
@@ -140,9 +140,6 @@ namespace db0::object_model
 
     bool ByteArray::operator!=(const ByteArray &bytearray) const
     {
-        if (size() != bytearray.size()) {
-            return false;
-        }
         return !(*this == bytearray);
     }
     
diff --git a/src/dbzero/object_model/list/List.cpp b/src/dbzero/object_model/list/List.cpp
index 2ccae04..392fadb 100644
--- a/src/dbzero/object_model/list/List.cpp
+++ b/src/dbzero/object_model/list/List.cpp
@@ -173,9 +173,6 @@ namespace db0::object_model
 
     bool List::operator!=(const List &list) const
     {
-        if (size() != list.size()) {
-            return false;
-        }
         return !(*this == list);
     }
 
-- 
2.43.0


From e5e4949b8d37952810aebedcd72ecebe49657820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 04/85] fix: list / tuple count, index and remove compare
 elements by value and raise ValueError when not found

---
 .../python/collections/CollectionMethods.hpp        | 13 +++++++++++--
 src/dbzero/bindings/python/collections/PyTuple.cpp  |  7 ++++++-
 src/dbzero/object_model/list/List.cpp               | 11 ++++++-----
 src/dbzero/object_model/list/List.hpp               |  4 +++-
 src/dbzero/object_model/tuple/Tuple.cpp             | 11 ++++++-----
 src/dbzero/object_model/tuple/Tuple.hpp             |  4 +++-
 6 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/CollectionMethods.hpp b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
index a1a4e56..e95641a 100644
--- a/src/dbzero/bindings/python/collections/CollectionMethods.hpp
+++ b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
@@ -176,8 +176,12 @@ namespace db0::python
     PyObject *tryObjectT_remove(ObjectT *py_obj, PyObject *const *args, Py_ssize_t nargs)
     {
         auto index = py_obj->ext().index(args[0]);
+        if (!index) {
+            PyErr_SetString(PyExc_ValueError, "element not found");
+            return nullptr;
+        }
         db0::FixtureLock lock(py_obj->ext().getFixture());
-        py_obj->modifyExt().remove(lock, index);
+        py_obj->modifyExt().remove(lock, *index);
         Py_RETURN_NONE;
     }
 
@@ -195,7 +199,12 @@ namespace db0::python
     template <typename ObjectT>
     PyObject *tryObjectT_index(ObjectT *py_obj, PyObject *const *args, Py_ssize_t nargs)
     {
-        return PyLong_FromLong(py_obj->ext().index(args[0]));        
+        auto index = py_obj->ext().index(args[0]);
+        if (!index) {
+            PyErr_SetString(PyExc_ValueError, "element not found");
+            return nullptr;
+        }
+        return PyLong_FromLong(*index);
     }
 
     template <typename ObjectT>
diff --git a/src/dbzero/bindings/python/collections/PyTuple.cpp b/src/dbzero/bindings/python/collections/PyTuple.cpp
index c0c6f9b..89d40be 100644
--- a/src/dbzero/bindings/python/collections/PyTuple.cpp
+++ b/src/dbzero/bindings/python/collections/PyTuple.cpp
@@ -64,7 +64,12 @@ namespace db0::python
     }
 
     PyObject *tryTupleObject_index(TupleObject *tuple_obj, PyObject *const *args, Py_ssize_t nargs) {
-        return PyLong_FromLong(tuple_obj->ext().index(args[0]));        
+        auto index = tuple_obj->ext().index(args[0]);
+        if (!index) {
+            PyErr_SetString(PyExc_ValueError, "element not found");
+            return nullptr;
+        }
+        return PyLong_FromLong(*index);
     }
 
     PyObject *PyAPI_TupleObject_index(TupleObject *tuple_obj, PyObject *const *args, Py_ssize_t nargs)
diff --git a/src/dbzero/object_model/list/List.cpp b/src/dbzero/object_model/list/List.cpp
index 392fadb..1330707 100644
--- a/src/dbzero/object_model/list/List.cpp
+++ b/src/dbzero/object_model/list/List.cpp
@@ -141,26 +141,27 @@ namespace db0::object_model
         auto fixture = this->getFixture();
         for (auto &elem: (*this)) {
             auto [elem_storage_class, elem_value] = elem;
-            if (unloadMember<LangToolkit>(fixture, elem_storage_class, elem_value, 0, this->getMemberFlags()) == lang_value) {
+            auto member = unloadMember<LangToolkit>(fixture, elem_storage_class, elem_value, 0, this->getMemberFlags());
+            if (LangToolkit::compare(member.get(), lang_value)) {
                 ++count;
             }
         }
         return count;
     }
 
-    std::size_t List::index(ObjectPtr lang_value) const
+    std::optional<std::size_t> List::index(ObjectPtr lang_value) const
     {
         std::size_t index = 0;
         auto fixture = this->getFixture();
         for (auto &elem: (*this)) {
             auto [elem_storage_class, elem_value] = elem;
-            if (unloadMember<LangToolkit>(fixture, elem_storage_class, elem_value, 0, this->getMemberFlags()) == lang_value) {
+            auto member = unloadMember<LangToolkit>(fixture, elem_storage_class, elem_value, 0, this->getMemberFlags());
+            if (LangToolkit::compare(member.get(), lang_value)) {
                 return index;
             }
             ++index;
         }
-        THROWF(db0::InputException) << "Item is not in a list ";
-        return -1;
+        return std::nullopt;
     }
     
     bool List::operator==(const List &list) const
diff --git a/src/dbzero/object_model/list/List.hpp b/src/dbzero/object_model/list/List.hpp
index 1dad565..7138eaf 100644
--- a/src/dbzero/object_model/list/List.hpp
+++ b/src/dbzero/object_model/list/List.hpp
@@ -3,6 +3,7 @@
 
 #pragma once
 
+#include <optional>
 #include <unordered_set>
 #include <dbzero/bindings/python/PyToolkit.hpp>
 #include <dbzero/core/collections/vector/v_bvector.hpp>
@@ -55,7 +56,8 @@ namespace db0::object_model
         
         List * copy(void *at_ptr, db0::swine_ptr<Fixture> &fixture) const;
         size_t count(ObjectPtr lang_value) const;
-        size_t index(ObjectPtr lang_value) const;
+        // @return nullopt if not found
+        std::optional<std::size_t> index(ObjectPtr lang_value) const;
 
         // operators
         bool operator==(const List &) const;
diff --git a/src/dbzero/object_model/tuple/Tuple.cpp b/src/dbzero/object_model/tuple/Tuple.cpp
index 3704af5..0fb3d6f 100644
--- a/src/dbzero/object_model/tuple/Tuple.cpp
+++ b/src/dbzero/object_model/tuple/Tuple.cpp
@@ -106,26 +106,27 @@ namespace db0::object_model
         auto fixture = this->getFixture();
         for (auto &elem: this->const_ref().items()) {
             auto [elem_storage_class, elem_value] = elem;
-            if (unloadMember<LangToolkit>(fixture, elem_storage_class, elem_value, 0, this->getMemberFlags()) == lang_value) {
+            auto member = unloadMember<LangToolkit>(fixture, elem_storage_class, elem_value, 0, this->getMemberFlags());
+            if (LangToolkit::compare(member.get(), lang_value)) {
                 count += 1;
             }
         }
         return count;
     }
     
-    std::size_t Tuple::index(ObjectPtr lang_value) const
+    std::optional<std::size_t> Tuple::index(ObjectPtr lang_value) const
     {
         std::size_t index = 0;
         auto fixture = this->getFixture();
         for (auto &elem: this->const_ref().items()){
             auto [elem_storage_class, elem_value] = elem;
-            if (unloadMember<LangToolkit>(fixture, elem_storage_class, elem_value, 0, this->getMemberFlags()) == lang_value) {
+            auto member = unloadMember<LangToolkit>(fixture, elem_storage_class, elem_value, 0, this->getMemberFlags());
+            if (LangToolkit::compare(member.get(), lang_value)) {
                 return index;
             }
             index += 1;
         }
-        THROWF(db0::InputException) << "Item is not in a list ";
-        return -1;
+        return std::nullopt;
     }
 
     std::size_t Tuple::size() const {
diff --git a/src/dbzero/object_model/tuple/Tuple.hpp b/src/dbzero/object_model/tuple/Tuple.hpp
index 00ff6d5..68a7845 100644
--- a/src/dbzero/object_model/tuple/Tuple.hpp
+++ b/src/dbzero/object_model/tuple/Tuple.hpp
@@ -3,6 +3,7 @@
 
 #pragma once
 
+#include <optional>
 #include <dbzero/bindings/python/PyToolkit.hpp>
 #include <dbzero/object_model/value/StorageClass.hpp>
 #include <dbzero/object_model/value/Value.hpp>
@@ -90,7 +91,8 @@ DB0_PACKED_END
         void setItem(FixtureLock &, std::size_t i, ObjectSharedPtr lang_value);
         
         std::size_t count(ObjectPtr lang_value) const;
-        std::size_t index(ObjectPtr lang_value) const;
+        // @return nullopt if not found
+        std::optional<std::size_t> index(ObjectPtr lang_value) const;
         std::size_t size() const;
 
         // operators
-- 
2.43.0


From 8fa11637ed3657be126f5bd01c46a343f1def9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 05/85] fix: compare two persistent lists / tuples by the
 values of their elements

---
 src/dbzero/bindings/python/collections/PyList.cpp  | 13 ++-----------
 src/dbzero/bindings/python/collections/PyTuple.cpp | 13 ++-----------
 2 files changed, 4 insertions(+), 22 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PyList.cpp b/src/dbzero/bindings/python/collections/PyList.cpp
index 49e4d3a..d21e817 100644
--- a/src/dbzero/bindings/python/collections/PyList.cpp
+++ b/src/dbzero/bindings/python/collections/PyList.cpp
@@ -262,17 +262,8 @@ namespace db0::python
 
     PyObject *tryListObject_rq(ListObject *list_obj, PyObject *other, int op)
     {        
-        if (ListObject_Check(other)) {
-            ListObject * other_list = (ListObject*) other;
-            switch (op) {
-                case Py_EQ:
-                    return PyBool_fromBool(list_obj->ext() == other_list->ext());
-                case Py_NE:
-                    return PyBool_fromBool(list_obj->ext() != other_list->ext());
-                default:
-                    Py_RETURN_NOTIMPLEMENTED;
-            }
-        } else if(PyList_Check(other)) {
+        // NOTE: elements must be compared by value (the stored representations of equal elements may differ)
+        if (ListObject_Check(other) || PyList_Check(other)) {
             auto iterator = Py_OWN(PyObject_GetIter(other));
             if (!iterator) {
                 PyErr_SetString(PyExc_TypeError, "argument must be a sequence");
diff --git a/src/dbzero/bindings/python/collections/PyTuple.cpp b/src/dbzero/bindings/python/collections/PyTuple.cpp
index 89d40be..f2c9034 100644
--- a/src/dbzero/bindings/python/collections/PyTuple.cpp
+++ b/src/dbzero/bindings/python/collections/PyTuple.cpp
@@ -96,17 +96,8 @@ namespace db0::python
     
     PyObject *tryTupleObject_rq(TupleObject *tuple_obj, TupleObject *other, int op)
     {
-        if (TupleObject_Check(other)) {
-            TupleObject * other_tuple = (TupleObject*)other;
-            switch (op) {
-                case Py_EQ:
-                    return PyBool_fromBool(tuple_obj->ext() == other_tuple->ext());
-                case Py_NE:
-                    return PyBool_fromBool(tuple_obj->ext() != other_tuple->ext());
-                default:
-                    Py_RETURN_NOTIMPLEMENTED;
-            }
-        } else  if (PyTuple_Check(other)) {
+        // NOTE: elements must be compared by value (the stored representations of equal elements may differ)
+        if (TupleObject_Check(other) || PyTuple_Check(other)) {
             auto iterator = Py_OWN(PyObject_GetIter(other));
             if (!iterator) {
                 PyErr_SetString(PyExc_TypeError, "argument must be an iterable");
-- 
2.43.0


From 9de6650530bc00046ec94a58248f73f8ca7e5a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 06/85] fix: length / assignment slots signal errors with -1 as
 the Python C API requires

---
 src/dbzero/bindings/python/PySnapshot.cpp                    | 4 ++--
 src/dbzero/bindings/python/collections/CollectionMethods.hpp | 4 ++--
 src/dbzero/bindings/python/collections/PyDict.cpp            | 2 +-
 src/dbzero/bindings/python/collections/PyDictView.cpp        | 2 +-
 src/dbzero/bindings/python/collections/PyIndex.cpp           | 2 +-
 src/dbzero/bindings/python/collections/PySet.cpp             | 4 ++--
 src/dbzero/bindings/python/collections/PyTuple.cpp           | 2 +-
 src/dbzero/bindings/python/collections/PyWeakSet.cpp         | 2 +-
 src/dbzero/bindings/python/iter/PyJoinIterable.cpp           | 2 +-
 src/dbzero/bindings/python/iter/PyObjectIterable.cpp         | 2 +-
 src/dbzero/bindings/python/types/PyEnum.cpp                  | 2 +-
 11 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/dbzero/bindings/python/PySnapshot.cpp b/src/dbzero/bindings/python/PySnapshot.cpp
index 2770ae4..99b8c34 100644
--- a/src/dbzero/bindings/python/PySnapshot.cpp
+++ b/src/dbzero/bindings/python/PySnapshot.cpp
@@ -364,7 +364,7 @@ namespace db0::python
             return -1;
         }
         PY_API_FUNC
-        return runSafe(tryPySnapshot_len, py_snapshot);
+        return runSafe<-1>(tryPySnapshot_len, py_snapshot);
     }
     
     int tryPySnapshot_HasItem(PySnapshotObject *py_snapshot, const char *prefix_name) {
@@ -384,7 +384,7 @@ namespace db0::python
         const char *prefix_name = PyUnicode_AsUTF8(prefix);
 
         PY_API_FUNC
-        return runSafe(tryPySnapshot_HasItem, py_snapshot, prefix_name);
+        return runSafe<-1>(tryPySnapshot_HasItem, py_snapshot, prefix_name);
     }
 
 }
diff --git a/src/dbzero/bindings/python/collections/CollectionMethods.hpp b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
index e95641a..62ded46 100644
--- a/src/dbzero/bindings/python/collections/CollectionMethods.hpp
+++ b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
@@ -75,7 +75,7 @@ namespace db0::python
     int PyAPI_ObjectT_SetItem(ObjectT *py_obj, Py_ssize_t i, PyObject *value)
     {
         PY_API_FUNC
-        return runSafe(tryObjectT_SetItem<ObjectT>, py_obj, i, value);
+        return runSafe<-1>(tryObjectT_SetItem<ObjectT>, py_obj, i, value);
     }
 
     template <typename ObjectT>
@@ -126,7 +126,7 @@ namespace db0::python
     Py_ssize_t PyAPI_ObjectT_len(ObjectT *py_obj)
     {
         PY_API_FUNC
-        return runSafe(tryObjectT_len<ObjectT>, py_obj);
+        return runSafe<-1>(tryObjectT_len<ObjectT>, py_obj);
     }
 
     template<typename ObjectT>
diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index b838624..1d0cd02 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -102,7 +102,7 @@ namespace db0::python
     Py_ssize_t PyAPI_DictObject_len(DictObject *dict_obj)
     {
         PY_API_FUNC
-        return runSafe(tryDictObject_len, dict_obj);
+        return runSafe<-1>(tryDictObject_len, dict_obj);
     }
     
     int tryDictObject_HasItem(DictObject *py_dict, PyObject *py_key)
diff --git a/src/dbzero/bindings/python/collections/PyDictView.cpp b/src/dbzero/bindings/python/collections/PyDictView.cpp
index 349c9c7..73b38f8 100644
--- a/src/dbzero/bindings/python/collections/PyDictView.cpp
+++ b/src/dbzero/bindings/python/collections/PyDictView.cpp
@@ -35,7 +35,7 @@ namespace db0::python
     Py_ssize_t PyAPI_DictViewObject_len(DictViewObject *dict_obj)
     {
         PY_API_FUNC        
-        return runSafe(tryDictViewObject_len, dict_obj);
+        return runSafe<-1>(tryDictViewObject_len, dict_obj);
     }
 
     static PyMappingMethods DictViewObject_mp = {
diff --git a/src/dbzero/bindings/python/collections/PyIndex.cpp b/src/dbzero/bindings/python/collections/PyIndex.cpp
index 47679d3..0f51d46 100644
--- a/src/dbzero/bindings/python/collections/PyIndex.cpp
+++ b/src/dbzero/bindings/python/collections/PyIndex.cpp
@@ -65,7 +65,7 @@ namespace db0::python
     Py_ssize_t PyAPI_IndexObject_len(IndexObject *index_obj)
     {
         PY_API_FUNC
-        return runSafe(tryIndexObject_len, index_obj);
+        return runSafe<-1>(tryIndexObject_len, index_obj);
     }
     
     IndexObject *tryMakeIndex(PyObject *self, PyObject *const *args, Py_ssize_t nargs)
diff --git a/src/dbzero/bindings/python/collections/PySet.cpp b/src/dbzero/bindings/python/collections/PySet.cpp
index dcb09ad..6d0d893 100644
--- a/src/dbzero/bindings/python/collections/PySet.cpp
+++ b/src/dbzero/bindings/python/collections/PySet.cpp
@@ -98,13 +98,13 @@ namespace db0::python
     Py_ssize_t PyAPI_SetObject_len(SetObject *set_obj)
     {
         PY_API_FUNC
-        return runSafe(trySetObject_len, set_obj);
+        return runSafe<-1>(trySetObject_len, set_obj);
     }
 
     Py_ssize_t getLenPyObjectOrSet(PyObject *obj)
     {
         if (SetObject_Check(obj)) {
-            return runSafe(trySetObject_len, (SetObject*)obj);
+            return runSafe<-1>(trySetObject_len, (SetObject*)obj);
         }
         return PyObject_Length(obj);
     }
diff --git a/src/dbzero/bindings/python/collections/PyTuple.cpp b/src/dbzero/bindings/python/collections/PyTuple.cpp
index f2c9034..afb980c 100644
--- a/src/dbzero/bindings/python/collections/PyTuple.cpp
+++ b/src/dbzero/bindings/python/collections/PyTuple.cpp
@@ -220,7 +220,7 @@ namespace db0::python
     Py_ssize_t PyAPI_TupleObject_len(TupleObject *tuple_obj)
     {
         PY_API_FUNC
-        return runSafe(tryTupleObject_len, tuple_obj);
+        return runSafe<-1>(tryTupleObject_len, tuple_obj);
     }
     
     shared_py_object<TupleObject*> tryMake_DB0Tuple(db0::swine_ptr<Fixture> &fixture, PyObject *const *args,
diff --git a/src/dbzero/bindings/python/collections/PyWeakSet.cpp b/src/dbzero/bindings/python/collections/PyWeakSet.cpp
index bb495b0..721ac0e 100644
--- a/src/dbzero/bindings/python/collections/PyWeakSet.cpp
+++ b/src/dbzero/bindings/python/collections/PyWeakSet.cpp
@@ -61,7 +61,7 @@ namespace db0::python
     Py_ssize_t PyAPI_WeakSetObject_len(WeakSetObject *self)
     {
         PY_API_FUNC
-        return runSafe(tryWeakSetObject_len, self);
+        return runSafe<-1>(tryWeakSetObject_len, self);
     }
 
     PyObject *tryWeakSetObject_add(WeakSetObject *self, PyObject *const *args, Py_ssize_t)
diff --git a/src/dbzero/bindings/python/iter/PyJoinIterable.cpp b/src/dbzero/bindings/python/iter/PyJoinIterable.cpp
index d931922..8e8c658 100644
--- a/src/dbzero/bindings/python/iter/PyJoinIterable.cpp
+++ b/src/dbzero/bindings/python/iter/PyJoinIterable.cpp
@@ -52,7 +52,7 @@ namespace db0::python
     Py_ssize_t PyAPI_PyJoinIterable_len(PyJoinIterable *py_join)
     {
         PY_API_FUNC
-        return runSafe(tryPyJoinIterable_len, py_join);
+        return runSafe<-1>(tryPyJoinIterable_len, py_join);
     }
     
     int PyAPI_PyJoinIterable_bool(PyJoinIterable *py_join)
diff --git a/src/dbzero/bindings/python/iter/PyObjectIterable.cpp b/src/dbzero/bindings/python/iter/PyObjectIterable.cpp
index cb8a73f..7ef3c05 100644
--- a/src/dbzero/bindings/python/iter/PyObjectIterable.cpp
+++ b/src/dbzero/bindings/python/iter/PyObjectIterable.cpp
@@ -94,7 +94,7 @@ namespace db0::python
     Py_ssize_t PyAPI_PyObjectIterable_len(PyObjectIterable *py_iterable)
     {
         PY_API_FUNC
-        return runSafe(tryPyObjectIterable_len, py_iterable);
+        return runSafe<-1>(tryPyObjectIterable_len, py_iterable);
     }
 
     void PySlice_GetUnboundIndices(PyObject *py_slice, std::function<std::size_t(std::optional<std::size_t> &)> size_func, 
diff --git a/src/dbzero/bindings/python/types/PyEnum.cpp b/src/dbzero/bindings/python/types/PyEnum.cpp
index 2d0275a..b42e9d9 100644
--- a/src/dbzero/bindings/python/types/PyEnum.cpp
+++ b/src/dbzero/bindings/python/types/PyEnum.cpp
@@ -175,7 +175,7 @@ namespace db0::python
     Py_ssize_t PyAPI_PyEnum_len(PyEnum *py_enum)
     {
         PY_API_FUNC
-        return runSafe(tryPyEnum_len, py_enum);
+        return runSafe<-1>(tryPyEnum_len, py_enum);
     }
 
     PyObject *tryPyEnum_GetItem(PyEnum *self, PyObject *py_key)
-- 
2.43.0


From 6e139b37a1ddc5267feaf2e2a9c53fe2ef99492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 07/85] fix: copies of lists / dicts hold their own references
 to the members

---
 .../bindings/python/collections/PyDict.cpp     | 18 +++++++++++++++---
 .../bindings/python/collections/PyList.cpp     | 11 ++++++++---
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index 1d0cd02..272d09b 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -404,9 +404,21 @@ namespace db0::python
     PyObject *tryDictObject_copy(DictObject *py_src_dict)
     {
         auto py_dict = DictDefaultObject_new();
-        auto lock = db0::FixtureLock(py_src_dict->ext().getFixture());
-        py_src_dict->ext().copy(&py_dict.get()->modifyExt(), *lock);
-        lock->getLangCache().add(py_dict.get()->ext().getAddress(), py_dict.get());
+        db0::FixtureLock lock(py_src_dict->ext().getFixture());
+        auto &dict = py_dict->makeNew(*lock);
+        // NOTE: items are added one by one, since the copy must hold its own references to its members
+        auto iterator = Py_OWN(PyObject_GetIter(py_src_dict));
+        if (!iterator) {
+            return nullptr;
+        }
+        ObjectSharedPtr key;
+        Py_FOR(key, iterator) {
+            auto value = Py_OWN(tryDictObject_GetItem(py_src_dict, *key));
+            if (!value || tryDictObject_SetItem(*py_dict, *key, *value) < 0) {
+                return nullptr;
+            }
+        }
+        lock->getLangCache().add(dict.getAddress(), py_dict.get());
         return py_dict.steal();
     }
 
diff --git a/src/dbzero/bindings/python/collections/PyList.cpp b/src/dbzero/bindings/python/collections/PyList.cpp
index d21e817..bfdeee8 100644
--- a/src/dbzero/bindings/python/collections/PyList.cpp
+++ b/src/dbzero/bindings/python/collections/PyList.cpp
@@ -35,11 +35,16 @@ namespace db0::python
     
     shared_py_object<ListObject*> tryListObject_copy(ListObject *py_src_list)
     {
-        // make actual dbzero instance, use default fixture
+        // make actual dbzero instance, on the same fixture as the source
+        // NOTE: elements are appended one by one, since the copy must hold its own references to its members
         auto py_list = Py_OWN(ListObject_new(&ListObjectType, NULL, NULL));
         db0::FixtureLock lock(py_src_list->ext().getFixture());
-        py_src_list->ext().copy(&py_list->modifyExt(), *lock);
-        lock->getLangCache().add(py_list->ext().getAddress(), py_list.get());
+        auto &list = py_list->makeNew(*lock, AccessFlags{});
+        PyObject *py_src = reinterpret_cast<PyObject*>(py_src_list);
+        if (!tryObjectT_extend<ListObject>(py_list.get(), &py_src, 1)) {
+            return nullptr;
+        }
+        lock->getLangCache().add(list.getAddress(), py_list.get());
         return py_list;
     }
 
-- 
2.43.0


From a65df5bb8143f894de809c7d646358a66db4bb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 08/85] fix: binary operators of lists / sets with reflected
 operands (and list * 0)

---
 .../bindings/python/collections/PyList.cpp    | 21 +++++++++++++++++++
 .../bindings/python/collections/PySet.cpp     | 20 ++++++++++++++++--
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PyList.cpp b/src/dbzero/bindings/python/collections/PyList.cpp
index bfdeee8..d671387 100644
--- a/src/dbzero/bindings/python/collections/PyList.cpp
+++ b/src/dbzero/bindings/python/collections/PyList.cpp
@@ -54,9 +54,19 @@ namespace db0::python
         return runSafe(tryListObject_copy, py_src_list).steal();
     }
 
+    shared_py_object<ListObject*> tryMake_DB0ListInternal(db0::swine_ptr<Fixture> &fixture,
+        PyObject *const *args, Py_ssize_t nargs, AccessFlags access_mode);
+
     shared_py_object<ListObject*> tryListObject_multiply(ListObject *list_obj, PyObject *elem)
     {        
         auto elems = PyLong_AsLong(elem);
+        if (elems == -1 && PyErr_Occurred()) {
+            return nullptr;
+        }
+        if (elems < 1) {
+            auto fixture = list_obj->ext().getFixture();
+            return tryMake_DB0ListInternal(fixture, nullptr, 0, AccessFlags{});
+        }
         auto list_obj_copy = tryListObject_copy(list_obj);
         PyObject * obj_list = (PyObject *)list_obj;
         PyObject** args = &obj_list;
@@ -72,6 +82,13 @@ namespace db0::python
     PyObject *PyAPI_ListObject_multiply(ListObject *list_obj, PyObject *elem)
     {
         PY_API_FUNC
+        // NOTE: number slots are also called with the operands reflected
+        if (!ListObject_Check(list_obj)) {
+            std::swap(reinterpret_cast<PyObject*&>(list_obj), elem);
+        }
+        if (!PyLong_Check(elem)) {
+            Py_RETURN_NOTIMPLEMENTED;
+        }
         return runSafe(tryListObject_multiply, list_obj, elem).steal();
     }
     
@@ -238,6 +255,10 @@ namespace db0::python
     PyObject *PyAPI_ListObject_add(ListObject *list_obj_lh, ListObject *list_obj_rh)
     {
         PY_API_FUNC
+        // NOTE: number slots are also called with the operands reflected
+        if (!ListObject_Check(list_obj_lh)) {
+            Py_RETURN_NOTIMPLEMENTED;
+        }
         return runSafe(tryListObject_add, list_obj_lh, list_obj_rh).steal();
     }
     
diff --git a/src/dbzero/bindings/python/collections/PySet.cpp b/src/dbzero/bindings/python/collections/PySet.cpp
index 6d0d893..64b34b8 100644
--- a/src/dbzero/bindings/python/collections/PySet.cpp
+++ b/src/dbzero/bindings/python/collections/PySet.cpp
@@ -458,7 +458,11 @@ namespace db0::python
         return runSafe(trySetObject_copyInternal, py_src_set);
     }
     
-    PyObject *PyAPI_SetObject_union_binary(SetObject *self, PyObject * obj) {        
+    PyObject *PyAPI_SetObject_union_binary(SetObject *self, PyObject * obj) {
+        // NOTE: number slots are also called with the operands reflected
+        if (!SetObject_Check(self)) {
+            Py_RETURN_NOTIMPLEMENTED;
+        }        
         return PyAPI_SetObject_union(self, &obj, 1);
     }
 
@@ -525,6 +529,10 @@ namespace db0::python
     }
     
     PyObject *PyAPI_SetObject_intersection_binary(SetObject *self, PyObject * obj) {
+        // NOTE: number slots are also called with the operands reflected
+        if (!SetObject_Check(self)) {
+            Py_RETURN_NOTIMPLEMENTED;
+        }
         return PyAPI_SetObject_intersection_func(self, &obj, 1);
     }
 
@@ -650,12 +658,20 @@ namespace db0::python
     
     PyObject *PyAPI_SetObject_difference_binary(SetObject *self, PyObject * obj) 
     {
+        // NOTE: number slots are also called with the operands reflected
+        if (!SetObject_Check(self)) {
+            Py_RETURN_NOTIMPLEMENTED;
+        }
         PY_API_FUNC
         return runSafe(trySetObject_difference, self, &obj, 1, false);
     }
 
     PyObject *PyAPI_SetObject_symmetric_difference_binary(SetObject *self, PyObject * obj)
-    { 
+    {
+        // NOTE: number slots are also called with the operands reflected
+        if (!SetObject_Check(self)) {
+            Py_RETURN_NOTIMPLEMENTED;
+        } 
         PY_API_FUNC
         return runSafe(trySetObject_difference, self, &obj, 1, true);
     }
-- 
2.43.0


From 6bc7c59bbd34f7d2fe0a982488a69f16bbc9764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 09/85] fix: storing a bytearray takes one reference, not two

---
 src/dbzero/object_model/value/Member.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbzero/object_model/value/Member.cpp b/src/dbzero/object_model/value/Member.cpp
index 397bdbb..b83df7d 100644
--- a/src/dbzero/object_model/value/Member.cpp
+++ b/src/dbzero/object_model/value/Member.cpp
@@ -304,7 +304,7 @@ namespace db0::object_model
         PyObjectPtr obj_ptr, StorageClass storage_class, AccessFlags access_flags)
     {
         auto &byte_array = PyToolkit::getTypeManager().extractMutableByteArray(obj_ptr);
-        byte_array.modify().incRef(false);
+        // NOTE: takes the reference as well
         return resolveForFixture(fixture, byte_array, obj_ptr, storage_class, access_flags);
     }
     
-- 
2.43.0


From 4a21c26ede8af4997ac950a4e188d424d0643f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 10/85] fix: unhashable / unencodable set elements and tuple
 items are reported, not stored or dereferenced

---
 src/dbzero/bindings/python/PyHash.cpp            |  4 ++++
 src/dbzero/bindings/python/collections/PySet.cpp | 12 ++++++++++++
 src/dbzero/object_model/value/Member.cpp         |  3 +++
 3 files changed, 19 insertions(+)

diff --git a/src/dbzero/bindings/python/PyHash.cpp b/src/dbzero/bindings/python/PyHash.cpp
index f41460f..17335f6 100644
--- a/src/dbzero/bindings/python/PyHash.cpp
+++ b/src/dbzero/bindings/python/PyHash.cpp
@@ -22,6 +22,10 @@ namespace db0::python
     template <> std::int64_t getPyHashImpl<TypeId::STRING>(db0::swine_ptr<Fixture> &, PyObject *key)
     {
         auto unicode_value = PyUnicode_AsUTF8(key);
+        if (!unicode_value) {
+            PyErr_Clear();
+            THROWF(db0::InputException) << "String cannot be encoded as UTF-8" << THROWF_END;
+        }
         return murmurhash64A(unicode_value, std::strlen(unicode_value));
     }
 
diff --git a/src/dbzero/bindings/python/collections/PySet.cpp b/src/dbzero/bindings/python/collections/PySet.cpp
index 64b34b8..ae68236 100644
--- a/src/dbzero/bindings/python/collections/PySet.cpp
+++ b/src/dbzero/bindings/python/collections/PySet.cpp
@@ -332,6 +332,10 @@ namespace db0::python
     {
         auto fixture = set_obj->ext().getFixture();
         auto hash = getPyHash(fixture, args[0]);
+        if (hash == -1 && PyErr_Occurred()) {
+            // not hashable
+            return nullptr;
+        }
         db0::FixtureLock lock(fixture);
         set_obj->modifyExt().append(lock, hash, args[0]);
         Py_RETURN_NONE;
@@ -367,6 +371,10 @@ namespace db0::python
             ObjectSharedPtr item;
             Py_FOR(item, iterator) {
                 auto hash = getPyHash(fixture, *item);
+                if (hash == -1 && PyErr_Occurred()) {
+                    // not hashable
+                    return nullptr;
+                }
                 set.append(lock, hash, item);
             }
         }
@@ -754,6 +762,10 @@ namespace db0::python
         db0::FixtureLock lock(set_impl.getFixture());
         Py_FOR(item, it) {
             auto hash = getPyHash(*lock, *item);
+            if (hash == -1 && PyErr_Occurred()) {
+                // not hashable
+                return nullptr;
+            }
             set_impl.append(lock, hash, *item);            
         }
 
diff --git a/src/dbzero/object_model/value/Member.cpp b/src/dbzero/object_model/value/Member.cpp
index b83df7d..30b9644 100644
--- a/src/dbzero/object_model/value/Member.cpp
+++ b/src/dbzero/object_model/value/Member.cpp
@@ -187,6 +187,9 @@ namespace db0::object_model
         PyObjectPtr obj_ptr, StorageClass, AccessFlags access_mode)
     {
         auto tuple = db0::python::tryMake_DB0Tuple(fixture, &obj_ptr, 1, access_mode);
+        if (!tuple) {
+            THROWF(db0::InputException) << "Failed to create tuple" << THROWF_END;
+        }
         tuple.get()->modifyExt().incRef(false);
         return tuple.get()->ext().getAddress();
     }
-- 
2.43.0


From 091651be9730388f2cb382ca7f469a459d25540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 11/85] fix: set pop / remove release the removed element

---
 src/dbzero/object_model/set/Set.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dbzero/object_model/set/Set.cpp b/src/dbzero/object_model/set/Set.cpp
index 51223a9..2e8357d 100644
--- a/src/dbzero/object_model/set/Set.cpp
+++ b/src/dbzero/object_model/set/Set.cpp
@@ -177,6 +177,7 @@ namespace db0::object_model
                     bindex.destroy();
                 } else {
                     bindex.erase(*it);
+                    unrefMember<LangToolkit>(fixture, storage_class, value);
                     // Erasing may have morphed the bindex to a smaller container,
                     // changing its address/type. Re-point the m_index entry so the
                     // bucket tracks the new storage — otherwise later lookups read
@@ -249,6 +250,7 @@ namespace db0::object_model
                 m_index.insert({key, bindex});
             }
         }
+        unrefMember<LangToolkit>(fixture, storage_class, value);
         --modify().m_size;
         restoreIterators();
         return member;
-- 
2.43.0


From 9343b8d1a540b11b0df26e184f3ec67084116d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 12/85] fix: assigning a dict item releases the replaced value

---
 src/dbzero/object_model/dict/Dict.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dbzero/object_model/dict/Dict.cpp b/src/dbzero/object_model/dict/Dict.cpp
index 6f6e2ff..0357386 100644
--- a/src/dbzero/object_model/dict/Dict.cpp
+++ b/src/dbzero/object_model/dict/Dict.cpp
@@ -137,8 +137,10 @@ namespace db0::object_model
                 auto [storage_class, value] = (*it_join).m_first;
                 auto member = unloadMember<LangToolkit>(*fixture, storage_class, value, 0, member_flags);
                 if (LangToolkit::compare(key, member.get())) {
+                    auto [old_storage_class, old_value] = (*it_join).m_second;
                     bindex.erase(*it_join);
                     unrefMember<LangToolkit>(*fixture, storage_class, value);
+                    unrefMember<LangToolkit>(*fixture, old_storage_class, old_value);
                     --modify().m_size;
                     break;
                 }
-- 
2.43.0


From fa42e9614c237be07092cd7e17a447cee7b64a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 13/85] fix: dict pop / del remove the given key among
 colliding ones, del of a missing key raises KeyError

---
 src/dbzero/bindings/python/collections/PyDict.cpp |  5 +++++
 src/dbzero/object_model/dict/Dict.cpp             | 13 ++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index 272d09b..a40c3f0 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -82,6 +82,11 @@ namespace db0::python
             return -1;
         }
         
+        if (!value && !py_dict->ext().hasItem(hash, *key)) {
+            // unable to delete
+            PyErr_SetObject(PyExc_KeyError, py_key);
+            return -1;
+        }
         db0::FixtureLock lock(fixture);
         py_dict->modifyExt().setItem(lock, hash, *key, value);
         return 0;
diff --git a/src/dbzero/object_model/dict/Dict.cpp b/src/dbzero/object_model/dict/Dict.cpp
index 0357386..8ac8253 100644
--- a/src/dbzero/object_model/dict/Dict.cpp
+++ b/src/dbzero/object_model/dict/Dict.cpp
@@ -217,9 +217,20 @@ namespace db0::object_model
         auto [key, address] = *iter;
         auto bindex = address.getIndex(this->getMemspace());
         auto it = bindex.beginJoin(1);
+        auto fixture = this->getFixture();        
+        // find the matching key (more than one may share the hash)
+        for (; !it.is_end(); ++it) {
+            auto [storage_class, value] = (*it).m_first;
+            auto member = unloadMember<LangToolkit>(fixture, storage_class, value, 0, this->getMemberFlags());
+            if (LangToolkit::compare(obj, member.get())) {
+                break;
+            }
+        }
+        if (it.is_end()) {
+            return nullptr;
+        }
         auto [key_storage_class, key_value] = (*it).m_first;
         auto [storage_class, value] = (*it).m_second;
-        auto fixture = this->getFixture();        
         
         auto member = unloadMember<LangToolkit>(fixture, storage_class, value, 0, this->getMemberFlags());
 
-- 
2.43.0


From 900e75cf169eac890cc474b0da89516f208e8bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:24 +0000
Subject: [PATCH 14/85] fix: comparison of two persistent dicts, reference
 count of the dict.pop default

---
 src/dbzero/bindings/python/collections/PyDict.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index a40c3f0..a49acf0 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -222,11 +222,15 @@ namespace db0::python
                     if (!our_value) {
                         return nullptr;
                     }
-                    auto their_value = PyDict_GetItem(other, *key);
+                    auto their_value = Py_OWN(PyObject_GetItem(other, *key));
                     if (!their_value) {
-                        return PyBool_fromBool(false);
+                        if (PyErr_ExceptionMatches(PyExc_KeyError)) {
+                            PyErr_Clear();
+                            return PyBool_fromBool(false);
+                        }
+                        return nullptr;
                     }
-                    int cmp_result = PyObject_RichCompareBool(*our_value, their_value, Py_EQ);
+                    int cmp_result = PyObject_RichCompareBool(*our_value, *their_value, Py_EQ);
                     if (cmp_result == -1) {
                         return nullptr;
                     }
@@ -530,7 +534,7 @@ namespace db0::python
             return NULL;
         }
         
-        return value;        
+        return Py_BORROW(value).steal();
     }
     
     PyObject *PyAPI_DictObject_pop(DictObject *dict_object, PyObject *const *args, Py_ssize_t nargs) 
-- 
2.43.0


From f5cadc4cb16bcb1906c585dfcaa03d24ac72e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 15/85] fix: set intersection, isdisjoint, issubset and
 issuperset compare elements by value (also for empty sets and any iterable)

---
 .../bindings/python/collections/PySet.cpp     | 177 ++++++------------
 1 file changed, 61 insertions(+), 116 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PySet.cpp b/src/dbzero/bindings/python/collections/PySet.cpp
index ae68236..9ac61ea 100644
--- a/src/dbzero/bindings/python/collections/PySet.cpp
+++ b/src/dbzero/bindings/python/collections/PySet.cpp
@@ -109,6 +109,9 @@ namespace db0::python
         return PyObject_Length(obj);
     }
     
+    bool sequenceContainsItem(PyObject *set_obj, PyObject *item);
+    ObjectSharedPtr asSearchable(PyObject *obj);
+
     PyObject *trySetObject_issubsetInternal(SetObject *self, PyObject *const *args, Py_ssize_t nargs)
     {
         if (nargs != 1) {
@@ -116,43 +119,21 @@ namespace db0::python
             return NULL;
         }
         
-        if (SetObject_Check(args[0])) {
-            SetObject *other = (SetObject*)args[0];
-            if (trySetObject_len(self) == 0 || trySetObject_len(other) == 0) Py_RETURN_TRUE;
-
-            auto it1 = self->ext().begin();
-            auto it2 = other->ext().begin();
-            auto it1End = self->ext().end();
-            auto it2End = other->ext().end();
-
-            while (it1 != it1End) {
-                if (it2 == it2End) {
-                    Py_RETURN_FALSE;
-                }
-                if (*it1 == *it2) {
-                    ++it1;
-                }
-                ++it2;
-            }
-        } else if (PySet_Check(args[0])) {
-            PyObject *other = args[0];
-            if (trySetObject_len(self) == 0 || PyObject_Length(other) == 0) {
-                Py_RETURN_TRUE;
-            }
+        auto other = asSearchable(args[0]);
+        if (!other) {
+            return nullptr;
+        }
 
-            auto iterator = Py_OWN(PyObject_GetIter(self));
-            if (!iterator) {
-                PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
-                return nullptr;
-            }
-            ObjectSharedPtr elem;
-            Py_FOR(elem, iterator) {            
-                if (!PySequence_Contains(other, *elem)) {
-                    Py_RETURN_FALSE;
-                }                                
+        auto iterator = Py_OWN(PyObject_GetIter(self));
+        if (!iterator) {
+            PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
+            return nullptr;
+        }
+        ObjectSharedPtr elem;
+        Py_FOR(elem, iterator) {
+            if (!sequenceContainsItem(*other, *elem)) {
+                Py_RETURN_FALSE;
             }
-        } else {
-            Py_RETURN_FALSE;
         }
         Py_RETURN_TRUE;
     }
@@ -175,10 +156,6 @@ namespace db0::python
             return trySetObject_issubsetInternal(other, &py_self,1);
         } else {
             PyObject *other = args[0];
-            if (trySetObject_len(self) == 0 || PyObject_Length(other) == 0) {
-                Py_RETURN_TRUE;
-            }
-
             auto iterator = Py_OWN(PyObject_GetIter(other));
             if (!iterator) {
                 PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
@@ -402,39 +379,20 @@ namespace db0::python
 
     PyObject *trySetObject_isdisjoint(SetObject *self, PyObject *const *args, Py_ssize_t nargs)
     {
-        if (SetObject_Check(args[0])) {
-            SetObject *other = (SetObject*)args[0];
-            if (trySetObject_len(self) == 0 || trySetObject_len(other) == 0) Py_RETURN_TRUE;
-            auto it1 = self->ext().begin();
-            auto it2 = other->ext().begin();
-            auto it1End = self->ext().end();
-            auto it2End = other->ext().end();
-
-            while (it1 != it1End && it2 != it2End) {
-                if(*it1 == *it2) Py_RETURN_FALSE;
-                if(*it1 < *it2) { ++it1; }
-                else { ++it2; }
-            }
-        } else {
-            PyObject *other = args[0];
-            if (trySetObject_len(self) == 0 || PyObject_Length(other) == 0) {
-                Py_RETURN_TRUE;
-            }
-
-            auto iterator = Py_OWN(PyObject_GetIter(other));
-            if (!iterator) {
-                PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
-                return NULL;
-            }
+        PyObject *other = args[0];
+        auto iterator = Py_OWN(PyObject_GetIter(other));
+        if (!iterator) {
+            PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
+            return NULL;
+        }
 
-            ObjectSharedPtr elem;
-            auto fixture = self->ext().getFixture();
-            Py_FOR(elem, iterator) {
-                auto hash = getPyHash(fixture, *elem);
-                if (self->ext().hasItem(hash, *elem)) {
-                    Py_RETURN_FALSE;
-                }                
-            }            
+        ObjectSharedPtr elem;
+        auto fixture = self->ext().getFixture();
+        Py_FOR(elem, iterator) {
+            auto hash = getPyHash(fixture, *elem);
+            if (self->ext().hasItem(hash, *elem)) {
+                Py_RETURN_FALSE;
+            }                
         }
         Py_RETURN_TRUE;
     }
@@ -512,30 +470,6 @@ namespace db0::python
         return runSafe(trySetObject_union, self, args, nargs);
     }
     
-    void trySetObject_intersectionInternal(FixtureLock &fixture, SetObject * set_obj, PyObject *it1, PyObject *elem1,
-        PyObject *it2, PyObject *elem2)
-    {
-        // FIXME: reimplement avoiding recursion
-        if (elem1 == nullptr || elem2 == nullptr) {
-            return;
-        }
-        if (elem1 < elem2) {
-            Py_DECREF(elem1);
-            elem1 = PyIter_Next(it1);
-        } else if (elem1 > elem2) {            
-            Py_DECREF(elem2);
-            elem2 = PyIter_Next(it2);
-        } else if (elem1 == elem2) {
-            auto hash = getPyHash(*fixture, elem1);
-            set_obj->modifyExt().append(fixture, hash, elem1);            
-            Py_DECREF(elem1);
-            Py_DECREF(elem2);
-            elem1 = PyIter_Next(it1);
-            elem2 = PyIter_Next(it2);
-        }
-        return trySetObject_intersectionInternal(fixture, set_obj, it1 ,elem1, it2, elem2);
-    }
-    
     PyObject *PyAPI_SetObject_intersection_binary(SetObject *self, PyObject * obj) {
         // NOTE: number slots are also called with the operands reflected
         if (!SetObject_Check(self)) {
@@ -544,33 +478,44 @@ namespace db0::python
         return PyAPI_SetObject_intersection_func(self, &obj, 1);
     }
 
-    PyObject *trySetObject_intersection_func(SetObject *self, PyObject *const *args, Py_ssize_t nargs)
-    { 
-        auto set_obj = Py_OWN(tryMake_Set(nullptr, nullptr, 0));
-        ObjectSharedPtr elem1, elem2;
-        auto it1 = Py_OWN(PyObject_GetIter((PyObject*)self));
-        if (!it1) {
-            PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
-            return nullptr;
+    // @return a collection suitable for membership tests
+    ObjectSharedPtr asSearchable(PyObject *obj)
+    {
+        if (SetObject_Check(obj) || PyAnySet_Check(obj)) {
+            return Py_BORROW(obj);
         }
+        // any other iterable
+        return Py_OWN(PySet_New(obj));
+    }
 
-        db0::FixtureLock lock(self->ext().getFixture());
-        ObjectSharedPtr it2;
+    PyObject *trySetObject_intersection_func(SetObject *self, PyObject *const *args, Py_ssize_t nargs)
+    {
+        std::vector<ObjectSharedPtr> others;
         for (Py_ssize_t i = 0; i < nargs; ++i) {
-            it2 = Py_OWN(PyObject_GetIter(args[i]));
-            if (!it2) {
-                PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
+            others.push_back(asSearchable(args[i]));
+            if (!others.back()) {
                 return nullptr;
             }
+        }
 
-            elem1 = Py_OWN(PyIter_Next(*it1));
-            elem2 = Py_OWN(PyIter_Next(*it2));
-            set_obj = Py_OWN(tryMake_Set(nullptr, nullptr, 0));
-            trySetObject_intersectionInternal(lock, *set_obj, *it1, *elem1, *it2, *elem2);
-            it1 = Py_OWN(PyObject_GetIter(*set_obj));
-            if (!it1) {
-                PyErr_SetString(PyExc_TypeError, "argument must be a sequence or set");
-                return nullptr;
+        auto it = Py_OWN(PyObject_GetIter((PyObject*)self));
+        if (!it) {
+            return nullptr;
+        }
+        auto set_obj = Py_OWN(tryMake_Set(nullptr, nullptr, 0));
+        db0::FixtureLock lock(self->ext().getFixture());
+        ObjectSharedPtr item;
+        Py_FOR(item, it) {
+            bool is_common = true;
+            for (auto &other: others) {
+                if (!sequenceContainsItem(*other, *item)) {
+                    is_common = false;
+                    break;
+                }
+            }
+            if (is_common) {
+                auto hash = getPyHash(*lock, *item);
+                set_obj->modifyExt().append(lock, hash, item);
             }
         }
         return set_obj.steal();
-- 
2.43.0


From 5e73aefdc8133089c759086263f6229fe32c6f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 16/85] fix: bytearray index errors are IndexError (iteration
 terminates), del of an item works

---
 src/dbzero/object_model/bytes/ByteArray.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/object_model/bytes/ByteArray.cpp b/src/dbzero/object_model/bytes/ByteArray.cpp
index 2524bd3..8cca335 100644
--- a/src/dbzero/object_model/bytes/ByteArray.cpp
+++ b/src/dbzero/object_model/bytes/ByteArray.cpp
@@ -38,7 +38,7 @@ namespace db0::object_model
     ByteArray::ObjectSharedPtr ByteArray::getItem(std::size_t i) const
     {
         if (i >= size()) {
-            THROWF(db0::InputException) << "Index out of range: " << i;
+            THROWF(db0::IndexException) << "Index out of range: " << i;
         }
         auto fixture = this->getFixture();
         return unloadMember<LangToolkit>(
@@ -53,7 +53,12 @@ namespace db0::object_model
     void ByteArray::setItem(FixtureLock &fixture, std::size_t i, ObjectPtr lang_value)
     {
         if (i >= size()) {
-            THROWF(db0::InputException) << "Index out of range: " << i;
+            THROWF(db0::IndexException) << "Index out of range: " << i;
+        }
+        if (!lang_value) {
+            // del operator used
+            this->erase(i);
+            return;
         }
         auto &type_manager = LangToolkit::getTypeManager();
         v_bvector::setItem(i, std::byte(type_manager.extractInt64(lang_value)));
-- 
2.43.0


From a04f2b2071e3fc02e8926d35d14698bb2050f847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 17/85] fix: bytearray.count reads an uninitialized failure
 table (and leaks it)

---
 src/dbzero/object_model/bytes/ByteArray.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dbzero/object_model/bytes/ByteArray.cpp b/src/dbzero/object_model/bytes/ByteArray.cpp
index 8cca335..ddeb095 100644
--- a/src/dbzero/object_model/bytes/ByteArray.cpp
+++ b/src/dbzero/object_model/bytes/ByteArray.cpp
@@ -85,7 +85,7 @@ namespace db0::object_model
     std::size_t ByteArray::count(const std::byte *values, std::size_t values_size) const
     {
         // substring search using Knuth-Morris-Pratt algorithm
-        int *P = new int[values_size + 1];
+        std::vector<int> P(values_size + 1, 0);
         if (values_size == 0) {
             return size() +1;
         }
@@ -120,7 +120,6 @@ namespace db0::object_model
                 j = P[j];
             }
         }
-        delete[] P;
         return count;
     }
 
-- 
2.43.0


From 573db150bc414b9e14e79e9da3193cd14ddce549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 18/85] fix: bytearray.insert inserts rather than overwrites

---
 .../python/collections/CollectionMethods.hpp     |  6 +++++-
 src/dbzero/object_model/bytes/ByteArray.cpp      | 16 ++++++++++++++++
 src/dbzero/object_model/bytes/ByteArray.hpp      |  2 ++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/bindings/python/collections/CollectionMethods.hpp b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
index 62ded46..9e4164c 100644
--- a/src/dbzero/bindings/python/collections/CollectionMethods.hpp
+++ b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
@@ -81,8 +81,12 @@ namespace db0::python
     template <typename ObjectT>
     PyObject* tryObjectT_Insert(ObjectT *py_obj, PyObject *const *args, Py_ssize_t nargs)
     {        
+        Py_ssize_t index = PyLong_AsLong(args[0]);
+        if (index < 0) {
+            index = std::max<Py_ssize_t>(0, index + py_obj->ext().size());
+        }
         db0::FixtureLock lock(py_obj->ext().getFixture());
-        py_obj->modifyExt().setItem(lock, PyLong_AsLong(args[0]), args[1]);
+        py_obj->modifyExt().insert(lock, index, args[1]);
         Py_RETURN_NONE;
     }
 
diff --git a/src/dbzero/object_model/bytes/ByteArray.cpp b/src/dbzero/object_model/bytes/ByteArray.cpp
index ddeb095..f38d5ba 100644
--- a/src/dbzero/object_model/bytes/ByteArray.cpp
+++ b/src/dbzero/object_model/bytes/ByteArray.cpp
@@ -64,6 +64,22 @@ namespace db0::object_model
         v_bvector::setItem(i, std::byte(type_manager.extractInt64(lang_value)));
     }
 
+    void ByteArray::insert(FixtureLock &fixture, std::size_t i, ObjectPtr lang_value)
+    {
+        append(fixture, lang_value);
+        auto last = size() - 1;
+        if (i >= last) {
+            return;
+        }
+        // shift the tail by one position
+        std::byte value = (*this)[last];
+        for (std::size_t pos = last; pos > i; --pos) {
+            std::byte prev = (*this)[pos - 1];
+            v_bvector::setItem(pos, prev);
+        }
+        v_bvector::setItem(i, value);
+    }
+
     void ByteArray::append(FixtureLock &, ObjectSharedPtr lang_value)
     {
         using TypeId = db0::bindings::TypeId;
diff --git a/src/dbzero/object_model/bytes/ByteArray.hpp b/src/dbzero/object_model/bytes/ByteArray.hpp
index 39a1e1f..b99deda 100644
--- a/src/dbzero/object_model/bytes/ByteArray.hpp
+++ b/src/dbzero/object_model/bytes/ByteArray.hpp
@@ -40,6 +40,8 @@ namespace db0::object_model
         ObjectSharedPtr getItem(std::size_t i) const;
         std::byte getByte(std::size_t i) const;
         void setItem(FixtureLock &fixture, std::size_t i, ObjectPtr lang_value);
+        // insert before the i-th byte (or at the end)
+        void insert(FixtureLock &, std::size_t i, ObjectPtr lang_value);
         void append(FixtureLock &, ObjectSharedPtr lang_value);
 
         std::size_t count(std::byte value) const;
-- 
2.43.0


From d95af7c083f9ba867fd4c3c009fab4bc135f6a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 19/85] fix: compare persistent bytearrays with bytes /
 bytearray by value

---
 src/dbzero/bindings/python/collections/PyByteArray.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dbzero/bindings/python/collections/PyByteArray.cpp b/src/dbzero/bindings/python/collections/PyByteArray.cpp
index 99f96de..9e1b64e 100644
--- a/src/dbzero/bindings/python/collections/PyByteArray.cpp
+++ b/src/dbzero/bindings/python/collections/PyByteArray.cpp
@@ -240,6 +240,12 @@ namespace db0::python
             default:
                 Py_RETURN_NOTIMPLEMENTED;
             }
+        } else if (PyBytes_Check(other) || PyByteArray_Check(other)) {
+            auto py_bytes = Py_OWN(asPyObject(list_obj));
+            if (!py_bytes) {
+                return nullptr;
+            }
+            return PyObject_RichCompare(*py_bytes, other, op);
         } else {
             Py_RETURN_NOTIMPLEMENTED;
         }
-- 
2.43.0


From e5be1f1d0e0ca01fbc292dcf8e038c9e60c5fba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 20/85] fix: store strings with embedded zeros entirely

---
 src/dbzero/object_model/value/Member.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/object_model/value/Member.cpp b/src/dbzero/object_model/value/Member.cpp
index 30b9644..291e620 100644
--- a/src/dbzero/object_model/value/Member.cpp
+++ b/src/dbzero/object_model/value/Member.cpp
@@ -82,7 +82,15 @@ namespace db0::object_model
         PyObjectPtr obj_ptr, StorageClass, AccessFlags access_mode)
     {
         // create string-ref member and take its address
-        return db0::v_object<db0::o_string>(*fixture, PyUnicode_AsUTF8(obj_ptr), access_mode).getAddress();
+        // NOTE: the string may contain embedded zeros
+        Py_ssize_t size = 0;
+        auto str_ptr = PyUnicode_AsUTF8AndSize(obj_ptr, &size);
+        if (!str_ptr) {
+            PyErr_Clear();
+            THROWF(db0::InputException) << "String cannot be encoded as UTF-8" << THROWF_END;
+        }
+        return db0::v_object<db0::o_string>(
+            *fixture, db0::ansi_cs_ptr(str_ptr, str_ptr + size), access_mode).getAddress();
     }
     
     // OBJECT specialization (mutable or immutable)
-- 
2.43.0


From 4184480fb6798d84976ee7bfdc4ac9b985c75d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 21/85] fix: list / bytearray item assignments made through an
 object held across commits are persisted

---
 .../core/collections/vector/v_bvector.hpp     | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/dbzero/core/collections/vector/v_bvector.hpp b/src/dbzero/core/collections/vector/v_bvector.hpp
index 9d3aaaa..4b7d2fe 100644
--- a/src/dbzero/core/collections/vector/v_bvector.hpp
+++ b/src/dbzero/core/collections/vector/v_bvector.hpp
@@ -185,8 +185,7 @@ DB0_PACKED_END
             if (!(index < size())) {
                 growBy((std::uint32_t)(index - size() + 1));
             }
-            getDataBlock(getKey(0, index));
-            return (*m_last_block).modify().modifyItem((std::size_t)(index & m_db_mask));
+            return getModifiableDataBlock(index).modify().modifyItem((std::size_t)(index & m_db_mask));
         }
 
         /**
@@ -198,8 +197,7 @@ DB0_PACKED_END
                 growBy((std::uint32_t)(index - size() + 1));
             }
             // access within data block element (not thread safe)
-            getDataBlock(getKey(0, index));
-            return f((*m_last_block).modify().modifyItem((std::size_t)(index & m_db_mask)));
+            return f(getModifiableDataBlock(index).modify().modifyItem((std::size_t)(index & m_db_mask)));
         }
 
         void setItem(std::uint64_t index, const ItemT &item)
@@ -208,8 +206,7 @@ DB0_PACKED_END
                 growBy((std::uint32_t)(index - size() + 1));
             }
             // access within data block element (not thread safe)
-            getDataBlock(getKey(0, index));
-            (*m_last_block).modify().modifyItem((std::size_t)(index & m_db_mask)) = item;
+            getModifiableDataBlock(index).modify().modifyItem((std::size_t)(index & m_db_mask)) = item;
         }
 
         // threadsafe
@@ -529,7 +526,19 @@ DB0_PACKED_END
         }
 
     private:
-        
+
+        /**
+         * Get data block for modification.
+         * NOTE: the vector itself is also accessed for modification since only the modified instances
+         * are notified on commit (otherwise the block would not be re-acquired by the next transaction)
+         */
+        DataBlockType &getModifiableDataBlock(std::uint64_t index)
+        {
+            this->modify();
+            getDataBlock(getKey(0, index));
+            return *m_last_block;
+        }
+
         void destroyAllBlocks() const
         {
             progressive_mutex::scoped_unique_lock rw_lock(this->m_mutex);
-- 
2.43.0


From 6728848d5bb1703e8fee0f5315c4486b232eb116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 22/85] fix: objects with more than 8 dynamic attributes follow
 their relocated storage

---
 src/dbzero/core/collections/b_index/mb_index.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/b_index/mb_index.hpp b/src/dbzero/core/collections/b_index/mb_index.hpp
index fe323d4..5c9b156 100644
--- a/src/dbzero/core/collections/b_index/mb_index.hpp
+++ b/src/dbzero/core/collections/b_index/mb_index.hpp
@@ -359,8 +359,10 @@ namespace db0
                     return result;
                 }
             }
+            // NOTE: the address may also change without morphing (e.g. sorted_vector reallocated to grow)
+            auto old_addr = m_interface.getAddress();
             m_interface.insert(item);
-			return result;
+            return result || m_interface.getAddress() != old_addr;
 		}
 		
 		/**
-- 
2.43.0


From bc1b423705406b4df77f516f768f7f538e920d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:48 +0000
Subject: [PATCH 23/85] fix: looking up a missing attribute of an object with 5
 or more dynamic attributes dereferences null

---
 src/dbzero/core/collections/vector/v_sorted_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/collections/vector/v_sorted_vector.hpp b/src/dbzero/core/collections/vector/v_sorted_vector.hpp
index 9515d0e..ea03baf 100644
--- a/src/dbzero/core/collections/vector/v_sorted_vector.hpp
+++ b/src/dbzero/core/collections/vector/v_sorted_vector.hpp
@@ -871,7 +871,7 @@ DB0_PACKED_END
         */
         bool updateExisting(const data_t &data, data_t *old_data = nullptr)
         {
-            auto it = (*this)->find(data);
+            auto it = this->find(data);
             if (it == (*this)->end()) {
                 return false;
             }
@@ -887,7 +887,7 @@ DB0_PACKED_END
 
         bool findOne(data_t &data) const
         {
-            auto it = (*this)->find(data);
+            auto it = this->find(data);
             if (it == (*this)->end()) {
                 return false;
             }
-- 
2.43.0


From 8c89fc49ee90e6f91c84bd48381acb6c179fd23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 24/85] fix: hash of a tuple never clashes with the -1 error
 code

---
 src/dbzero/bindings/python/PyHash.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/bindings/python/PyHash.cpp b/src/dbzero/bindings/python/PyHash.cpp
index 17335f6..c581652 100644
--- a/src/dbzero/bindings/python/PyHash.cpp
+++ b/src/dbzero/bindings/python/PyHash.cpp
@@ -43,7 +43,8 @@ namespace db0::python
             auto item = PyTuple_GetItem(key, i);
             hash ^= getPyHash(fixture, item);
         }
-        return hash;
+        // NOTE: -1 is reserved as the error code
+        return hash == -1 ? -2 : hash;
     }
     
     template <> std::int64_t getPyHashImpl<TypeId::DB0_TUPLE>(db0::swine_ptr<Fixture> &fixture, PyObject *key)
@@ -54,7 +55,8 @@ namespace db0::python
             auto item = tuple_obj->ext().getItem(i);
             hash ^= getPyHash(fixture, *item);
         }
-        return hash;
+        // NOTE: -1 is reserved as the error code
+        return hash == -1 ? -2 : hash;
     }
     
     template <> std::int64_t getPyHashImpl<TypeId::DB0_ENUM_VALUE>(db0::swine_ptr<Fixture> &, PyObject *key) {
-- 
2.43.0


From 9945f4a4cbe7aaf8b97a6fb470346e346d078cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 25/85] fix: list.extend with itself terminates

---
 .../bindings/python/collections/CollectionMethods.hpp       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dbzero/bindings/python/collections/CollectionMethods.hpp b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
index 9e4164c..01b74da 100644
--- a/src/dbzero/bindings/python/collections/CollectionMethods.hpp
+++ b/src/dbzero/bindings/python/collections/CollectionMethods.hpp
@@ -45,7 +45,13 @@ namespace db0::python
         ObjectSharedPtr item;
         db0::FixtureLock lock(py_obj->ext().getFixture());
         auto &obj = py_obj->modifyExt();
+        // NOTE: when extended with itself, only the items present at the start are appended
+        bool extend_self = (args[0] == reinterpret_cast<PyObject*>(py_obj));
+        auto count = obj.size();
         Py_FOR(item, iterator) {
+            if (extend_self && count-- == 0) {
+                break;
+            }
             obj.append(lock, item);
         }
         
-- 
2.43.0


From 886e9203654bb14cd5c5be8efc2829bcfd575157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:29 +0000
Subject: [PATCH 26/85] fix: set difference with elements being tuples
 (compared by value also with Python sets)

---
 .../bindings/python/collections/PySet.cpp     | 37 +++++++++++++++++--
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/dbzero/bindings/python/collections/PySet.cpp b/src/dbzero/bindings/python/collections/PySet.cpp
index 9ac61ea..88f59a5 100644
--- a/src/dbzero/bindings/python/collections/PySet.cpp
+++ b/src/dbzero/bindings/python/collections/PySet.cpp
@@ -3,6 +3,7 @@
 
 #include "PySet.hpp"
 #include "PyIterator.hpp"
+#include "PyTuple.hpp"
 #include <dbzero/bindings/python/Utils.hpp>
 #include <dbzero/object_model/set/Set.hpp>
 #include <dbzero/object_model/set/SetIterator.hpp>
@@ -543,7 +544,7 @@ namespace db0::python
         ObjectSharedPtr item;
         auto &set_impl = set_result->modifyExt();        
         Py_FOR(item, it) {
-            if (!PySequence_Contains(ob, *item)) {
+            if (!sequenceContainsItem(ob, *item)) {
                 auto hash = getPyHash(*fixture, *item);
                 set_impl.append(fixture, hash, item);
             }            
@@ -555,7 +556,7 @@ namespace db0::python
                 THROWF(db0::InputException) <<  "argument must be a sequence or set";
             }
             Py_FOR(item, it) {            
-                if (!PySequence_Contains((PyObject*)set_input, *item)) {
+                if (!sequenceContainsItem((PyObject*)set_input, *item)) {
                     auto hash = getPyHash(*fixture, *item);
                     set_impl.append(fixture, hash, item);
                 }                
@@ -723,6 +724,29 @@ namespace db0::python
         return runSafe(trySetObject_update, self, ob);
     }
 
+    // Convert persistent tuple (not hashable) to a regular one, including the nested ones
+    ObjectSharedPtr asPyTuple(PyObject *item)
+    {
+        if (!TupleObject_Check(item)) {
+            return Py_BORROW(item);
+        }
+        auto result = Py_OWN(PySequence_Tuple(item));
+        if (!result) {
+            return nullptr;
+        }
+        for (Py_ssize_t i = 0; i < PyTuple_GET_SIZE(*result); ++i) {
+            auto elem = asPyTuple(PyTuple_GET_ITEM(*result, i));
+            if (!elem) {
+                return nullptr;
+            }
+            // NOTE: steals the reference
+            if (PyTuple_SetItem(*result, i, elem.steal()) < 0) {
+                return nullptr;
+            }
+        }
+        return result;
+    }
+
     bool sequenceContainsItem(PyObject *set_obj, PyObject *item)
     {
         if (SetObject_Check(set_obj)) {
@@ -734,7 +758,14 @@ namespace db0::python
 
             return ((SetObject*)set_obj)->ext().hasItem(maybe_hash->first, item);
         } else {
-            return PySequence_Contains(set_obj, item);
+            auto py_item = asPyTuple(item);
+            int result = !py_item ? -1 : PySequence_Contains(set_obj, *py_item);
+            if (result < 0) {
+                // e.g. unhashable item
+                PyErr_Clear();
+                THROWF(db0::InputException) << "Unable to compare set elements";
+            }
+            return result;
         }
     }
 
-- 
2.43.0


From b3887ae1c010c30d714622f7e73a49417e30425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:07 +0000
Subject: [PATCH 27/85] fix: inserting into a full index block (as left by
 merging of blocks) overflows it

---
 src/dbzero/core/collections/b_index/v_bindex.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/b_index/v_bindex.hpp b/src/dbzero/core/collections/b_index/v_bindex.hpp
index be1c2a7..16cfb0c 100644
--- a/src/dbzero/core/collections/b_index/v_bindex.hpp
+++ b/src/dbzero/core/collections/b_index/v_bindex.hpp
@@ -315,7 +315,8 @@ namespace db0
             // actual insert
             {
                 bool addr_changed = false;
-                data_buf.insert(item, addr_changed, this->m_max_size);
+                // NOTE: the block may already be full as a result of merging (on erase), it gets split below
+                data_buf.insert(item, addr_changed, std::max(this->m_max_size, data_buf->m_size + 1));
                 if (addr_changed) {
                     it_node.modify().m_data.ptr_b_data = data_buf.getAddress();
                 }
-- 
2.43.0


From 8571a33d51cc9298a25e179cd5276f3a298f1f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 28/85] fix: the last of contradicting tag operations within a
 transaction wins

---
 .../collections/full_text/FT_BaseIndex.hpp    | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp b/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
index 4faa82d..08c33a2 100644
--- a/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
+++ b/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
@@ -238,18 +238,19 @@ namespace db0
         private:
             void _addTag(ActiveValueT value, IndexKeyT tag)
             {
-                // try un-removing the tag first
-                if (!m_remove_set.remove(tag, value)) {
-                    m_add_set.append(tag, value);
-                }
+                // NOTE: cancelling the pending removal is not sufficient since
+                // the removed tag might've not been assigned in the first place
+                m_remove_set.remove(tag, value);
+                m_add_set.append(tag, value);
             }
 
-            void _removeTag(ActiveValueT value, IndexKeyT tag) {
-                // try un-adding the tag first
-                if (!m_add_set.remove(tag, value)) {
-                    m_remove_set.append(tag, value);
-                }
-            }         
+            void _removeTag(ActiveValueT value, IndexKeyT tag)
+            {
+                // NOTE: cancelling the pending addition is not sufficient since
+                // the tag might've already been assigned before
+                m_add_set.remove(tag, value);
+                m_remove_set.append(tag, value);
+            }
         };
 
         class BatchOperationBuilder
-- 
2.43.0


From 9a61096ef296f1f37f56f1f6fed172247846dc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 29/85] fix: bulkErase of a single-element index reports only
 elements actually erased

---
 src/dbzero/core/collections/b_index/mb_index.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/dbzero/core/collections/b_index/mb_index.hpp b/src/dbzero/core/collections/b_index/mb_index.hpp
index 5c9b156..b5bb858 100644
--- a/src/dbzero/core/collections/b_index/mb_index.hpp
+++ b/src/dbzero/core/collections/b_index/mb_index.hpp
@@ -303,12 +303,15 @@ namespace db0
                     bindex::type type_after_erase = getIndexTypeAfterErase(key_count);
                     if (type_after_erase == bindex::type::empty) {
                         // morph to empty_index (this will erase all elements)
+                        // NOTE: only notify on actually erased elements (input might contain other)
+                        item_t data[4];
+                        auto data_end = data + m_interface.copyAll(data);
                         morphToEmpty();
-						if (callback_ptr) {
-							for (auto it = begin; it != end; ++it) {
-								(*callback_ptr)(*it);
-							}
-						}
+                        if (callback_ptr) {
+                            for (auto it = data; it != data_end; ++it) {
+                                (*callback_ptr)(*it);
+                            }
+                        }
                     } else if (type_after_erase==bindex::type::itty) {
                         // morph to itty_index passing 1 element
                         morphToAndErase<bindex::type::itty>(begin, end, callback_ptr);
-- 
2.43.0


From 1434adb63c3b62189f46cd3c15fa9838a824cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 30/85] fix: removing a tag not assigned by the transaction
 dereferences end iterator

---
 src/dbzero/object_model/tags/TagIndex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbzero/object_model/tags/TagIndex.cpp b/src/dbzero/object_model/tags/TagIndex.cpp
index 8aa67cf..886a064 100644
--- a/src/dbzero/object_model/tags/TagIndex.cpp
+++ b/src/dbzero/object_model/tags/TagIndex.cpp
@@ -406,8 +406,8 @@ namespace db0::object_model
             std::function<void(UniqueAddress)> remove_tag_callback = [&](UniqueAddress obj_addr) {
                 auto it = m_object_cache.find(obj_addr);
                 // object may not exist if tags are removed post-deletion
-                auto obj_ptr = it->second.get();
                 if (it != m_object_cache.end()) {
+                    auto obj_ptr = it->second.get();
                     // NOTE: we check for acutal language references (excluding LangCache + TagIndex)
                     if (LangToolkit::decRefMemo(true, obj_ptr) && !LangToolkit::hasAnyLangRefs(obj_ptr, 2)) {
                         auto &memo = type_manager.extractAnyObject(obj_ptr);
-- 
2.43.0


From 210e6b793016aad1ae47c581748755f54c5ebc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 31/85] fix: field type statistics stay consistent when
 attribute types change

---
 src/dbzero/object_model/class/Schema.cpp | 197 +++++++++++++----------
 src/dbzero/object_model/class/Schema.hpp |   7 +-
 2 files changed, 114 insertions(+), 90 deletions(-)

diff --git a/src/dbzero/object_model/class/Schema.cpp b/src/dbzero/object_model/class/Schema.cpp
index 76d9e47..01c2a23 100644
--- a/src/dbzero/object_model/class/Schema.cpp
+++ b/src/dbzero/object_model/class/Schema.cpp
@@ -2,6 +2,8 @@
 // Copyright (c) 2025 DBZero Software sp. z o.o.
 
 #include "Schema.hpp"
+#include <limits>
+#include <algorithm>
 #include <vector>
 #include <dbzero/object_model/value/TypeUtils.hpp>
 #include <dbzero/core/collections/vector/LimitedMatrix.hpp>
@@ -38,29 +40,24 @@ namespace db0::object_model
     o_schema::o_schema(
         Memspace &memspace, std::vector<std::tuple<FieldLoc, SchemaTypeId, int> >::const_iterator begin,
         std::vector<std::tuple<FieldLoc, SchemaTypeId, int> >::const_iterator end)
-        : m_primary_type_id(std::get<1>(*begin))
     {
         assert(begin != end);
-        ++begin;
-        // fill-in secondary type ID statistics
-        if (begin != end) {
-            m_secondary_type = o_type_item(std::get<1>(*begin), std::get<2>(*begin));
-            ++begin;
-        }
-        // fill-in the remaining type IDs
-        if (begin != end) {
-            std::vector<o_type_item> extra_items;
-            while (begin != end) {
+        std::vector<o_type_item> extra_items;
+        for (; begin != end; ++begin) {
+            if (std::get<2>(*begin) <= 0) {
+                continue;
+            }
+            if (m_primary_type_id == SchemaTypeId::UNDEFINED) {
+                m_primary_type_id = std::get<1>(*begin);
+            } else if (!m_secondary_type) {
+                // fill-in secondary type ID statistics
+                m_secondary_type = o_type_item(std::get<1>(*begin), std::get<2>(*begin));
+            } else {
+                // fill-in the remaining type IDs
                 extra_items.emplace_back(std::get<1>(*begin), std::get<2>(*begin));
-                ++begin;
             }
-
-            // sort by type ID
-            std::sort(extra_items.begin(), extra_items.end());            
-            TypeVector type_vector(memspace);
-            type_vector.bulkPushBack(extra_items.begin(), extra_items.size());
-            m_type_vector_ptr = db0::db0_ptr<TypeVector>(type_vector);
         }
+        setExtraItems(memspace, extra_items);
     }
     
     std::pair<SchemaTypeId, SchemaTypeId> o_schema::getType() const {
@@ -95,16 +92,44 @@ namespace db0::object_model
         return result;
     }
     
-    void o_schema::initTypeVector(Memspace &memspace, TypeVector &type_vector)
+    std::vector<o_type_item> o_schema::getExtraItems(Memspace &memspace) const
     {
-        if (!type_vector) {
-            if (!m_type_vector_ptr) {
-                type_vector = TypeVector(memspace);
-                m_type_vector_ptr = db0::db0_ptr<TypeVector>(type_vector);
-            } else {
-                type_vector = m_type_vector_ptr(memspace);
-            }
+        std::vector<o_type_item> result;
+        if (m_type_vector_ptr) {
+            auto type_vector = m_type_vector_ptr(memspace);
+            std::copy(type_vector.begin(), type_vector.end(), std::back_inserter(result));
+        }
+        return result;
+    }
+
+    void o_schema::setExtraItems(Memspace &memspace, std::vector<o_type_item> &extra_items)
+    {
+        if (m_type_vector_ptr) {
+            m_type_vector_ptr(memspace).destroy();
+            m_type_vector_ptr = db0::db0_ptr<TypeVector>();
         }
+        m_total_extra = 0;
+        if (extra_items.empty()) {
+            return;
+        }
+        for (const auto &item: extra_items) {
+            m_total_extra += item.m_count;
+        }
+        // sort by type ID
+        std::sort(extra_items.begin(), extra_items.end());
+        TypeVector type_vector(memspace);
+        type_vector.bulkPushBack(extra_items.begin(), extra_items.size());
+        m_type_vector_ptr = db0::db0_ptr<TypeVector>(type_vector);
+    }
+    
+    std::uint32_t o_schema::getPrimaryCount(std::uint32_t collection_size) const
+    {
+        auto non_primary_count = static_cast<std::uint64_t>(m_secondary_type.m_count) + m_total_extra;
+        if (collection_size < non_primary_count) {
+            // collection size not known (yet), retain the primary type
+            return std::numeric_limits<std::uint32_t>::max();
+        }
+        return collection_size - non_primary_count;
     }
     
     void o_schema::update(Memspace &memspace,
@@ -114,50 +139,55 @@ namespace db0::object_model
     {
         // NOTE: primary type is not counted
         assert(begin != end);
-        // assign secondary type ID and count
-        if (!m_secondary_type) {
-            // if the secondary type ID is not set, set it to the first one
-            m_secondary_type = { std::get<1>(*begin), std::get<2>(*begin) };            
-            ++begin;
-        }
+        // @return false if the type is no longer present
+        auto update_item = [](o_type_item &item, int diff) {
+            auto count = static_cast<std::int64_t>(item.m_count) + diff;
+            item.m_count = count > 0 ? count : 0;
+            return item.m_count > 0;
+        };
         
-        TypeVector type_vector;
-        std::vector<o_type_item> extra_items;
-        while (begin != end) {
-            if (std::get<1>(*begin) == m_secondary_type.m_type_id) {
-                auto diff = std::get<2>(*begin);
-                m_secondary_type.m_count += diff;                
-                if (m_secondary_type.m_count == 0) {
+        auto extra_items = getExtraItems(memspace);
+        bool extra_changed = false;
+        for (; begin != end; ++begin) {
+            auto type_id = std::get<1>(*begin);
+            auto diff = std::get<2>(*begin);
+            if (diff == 0 || type_id == m_primary_type_id) {
+                continue;
+            }
+            if (!!m_secondary_type && type_id == m_secondary_type.m_type_id) {
+                if (!update_item(m_secondary_type, diff)) {
                     // remove secondary type ID
                     m_secondary_type = o_type_item();
                 }
-            } else {
-                initTypeVector(memspace, type_vector);
-                auto it = type_vector.find(o_type_item{std::get<1>(*begin), 0});
-                if (it == type_vector.end()) {
-                    // add new type ID
-                    extra_items.emplace_back(std::get<1>(*begin), std::get<2>(*begin));                    
+                continue;
+            }
+            auto it = std::find(extra_items.begin(), extra_items.end(), o_type_item{type_id, 0});
+            if (it != extra_items.end()) {
+                // update existing type ID
+                if (!update_item(*it, diff)) {
+                    extra_items.erase(it);
+                }
+                extra_changed = true;
+            } else if (diff > 0) {
+                if (m_primary_type_id == SchemaTypeId::UNDEFINED) {
+                    m_primary_type_id = type_id;
+                } else if (!m_secondary_type) {
+                    // if the secondary type ID is not set, assign it
+                    m_secondary_type = o_type_item(type_id, diff);
                 } else {
-                    // update existing type ID
-                    extra_items.emplace_back(std::get<1>(*begin), it->m_count + std::get<2>(*begin));
+                    // add new type ID
+                    extra_items.emplace_back(type_id, diff);
+                    extra_changed = true;
                 }
-                m_total_extra += std::get<2>(*begin);
             }
-            ++begin;
         }
         
-        if (!extra_items.empty()) {
-            assert(!!type_vector);
-            // register the extra items
-            type_vector.bulkInsertUnique(extra_items.begin(), extra_items.end(), nullptr);
-            // type vector's address might've been changed
-            if (!!type_vector && m_type_vector_ptr.getAddress() != type_vector.getAddress()) {
-                m_type_vector_ptr = db0::db0_ptr<TypeVector>(type_vector);
-            }
+        if (extra_changed) {
+            setExtraItems(memspace, extra_items);
         }
 
         // Reorder the primary, secondary and possibly extra types
-        update(memspace, type_vector, collection_size);
+        update(memspace, collection_size);
     }
 
     bool o_schema::isPrimarySwapRequired(std::uint32_t collection_size) const {
@@ -165,15 +195,9 @@ namespace db0::object_model
     }
 
     void o_schema::update(Memspace &memspace, std::uint32_t collection_size)
-    {
-        TypeVector type_vector;
-        update(memspace, type_vector, collection_size);
-    }
-    
-    void o_schema::update(Memspace &memspace, TypeVector &type_vector, std::uint32_t collection_size)
     {
         // try swapping primary / secondary and extra types
-        auto primary_count = collection_size - m_secondary_type.m_count - m_total_extra;
+        auto primary_count = getPrimaryCount(collection_size);
         if (m_secondary_type.m_count > primary_count) {
             // swap primary / secondary
             auto temp = m_secondary_type.m_type_id;
@@ -191,51 +215,48 @@ namespace db0::object_model
         if (m_total_extra <= m_secondary_type.m_count || !m_type_vector_ptr) {
             return;
         }
-
-        initTypeVector(memspace, type_vector);
-        assert(!!type_vector);
         
-        o_type_item max_item, second_max_item;
-        for (auto &type_item : type_vector) {
-            if (type_item.m_count > second_max_item.m_count) {
-                second_max_item = type_item;
+        auto extra_items = getExtraItems(memspace);
+        // sort by occurrence count descending
+        std::sort(extra_items.begin(), extra_items.end(),
+            [](const o_type_item &a, const o_type_item &b) {
+                return a.m_count > b.m_count;
             }
-            if (second_max_item.m_count > max_item.m_count) {
-                std::swap(max_item, second_max_item);
-            }
-        }
+        );
         
         // swap primary type ID
-        bool addr_changed = false;
-        if (max_item.m_count > primary_count) {
-            type_vector.erase(max_item, addr_changed);
+        bool extra_changed = false;
+        if (!extra_items.empty() && extra_items.front().m_count > primary_count) {
+            auto max_item = extra_items.front();
+            extra_items.erase(extra_items.begin());
             if (primary_count) {
                 if (!!m_secondary_type) {
-                    type_vector.insert(m_secondary_type, addr_changed);
+                    extra_items.push_back(m_secondary_type);
                 }
                 m_secondary_type = o_type_item(m_primary_type_id, primary_count);                
             }
             m_primary_type_id = max_item.m_type_id;
-            max_item = second_max_item;
+            extra_changed = true;
         }
 
         // swap secondary type ID
-        if (max_item.m_count > m_secondary_type.m_count) {            
-            type_vector.erase(max_item, addr_changed);
+        if (!extra_items.empty() && extra_items.front().m_count > m_secondary_type.m_count) {
+            auto max_item = extra_items.front();
+            extra_items.erase(extra_items.begin());
             if (!!m_secondary_type) {
-                type_vector.insert(m_secondary_type, addr_changed);
+                extra_items.push_back(m_secondary_type);
             }
             m_secondary_type = max_item;
+            extra_changed = true;
         }
-        if (addr_changed) {
-            m_type_vector_ptr = db0::db0_ptr<TypeVector>(type_vector);
+        if (extra_changed) {
+            setExtraItems(memspace, extra_items);
         }
     }
     
     SchemaTypeId o_schema::getPrimaryType(std::uint32_t collection_size) const
     {
-        auto primary_count = collection_size - m_secondary_type.m_count - m_total_extra;
-        if (primary_count >= m_secondary_type.m_count) {
+        if (getPrimaryCount(collection_size) >= m_secondary_type.m_count) {
             return m_primary_type_id;
         } else {            
             return m_secondary_type.m_type_id;
diff --git a/src/dbzero/object_model/class/Schema.hpp b/src/dbzero/object_model/class/Schema.hpp
index 432689b..53e3746 100644
--- a/src/dbzero/object_model/class/Schema.hpp
+++ b/src/dbzero/object_model/class/Schema.hpp
@@ -138,8 +138,11 @@ DB0_PACKED_BEGIN
         bool isPrimarySwapRequired(std::uint32_t collection_size) const;
 
     private:
-        void update(Memspace &, TypeVector &, std::uint32_t collection_size);
-        void initTypeVector(Memspace &, TypeVector &);
+        // evaluate primary type's (uncounted) occurrence based on the current collection size
+        std::uint32_t getPrimaryCount(std::uint32_t collection_size) const;
+        // get / overwrite items from the type vector (not sorted by count)
+        std::vector<o_type_item> getExtraItems(Memspace &) const;
+        void setExtraItems(Memspace &, std::vector<o_type_item> &);
     };
     
 DB0_PACKED_END
-- 
2.43.0


From a9e90023b9de40e3da598805331ac1c6de06f793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 32/85] fix: clearing the object cache may drop an object twice

---
 src/dbzero/object_model/LangCache.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/dbzero/object_model/LangCache.cpp b/src/dbzero/object_model/LangCache.cpp
index a28a5ba..35903d1 100644
--- a/src/dbzero/object_model/LangCache.cpp
+++ b/src/dbzero/object_model/LangCache.cpp
@@ -149,19 +149,25 @@ namespace db0
     
     void LangCache::clear(bool expired_only)
     {
-        std::vector<ObjectSharedExtPtr> to_destroy;
-        std::unique_lock<std::shared_mutex> lock(m_mutex);
-        for (auto &item: m_cache) {
+        // NOTE: destruction of an object may drop it together with its members, which are looked up in the cache.
+        // Therefore objects are released one by one - so that the ones still alive can be found.
+        for (std::size_t i = 0; ; ++i) {
+            ObjectSharedExtPtr to_destroy;
+            std::unique_lock<std::shared_mutex> lock(m_mutex);
+            if (i >= m_cache.size()) {
+                break;
+            }
+            auto &item = m_cache[i];
             // NOTE: we check for any refernces except from LangCache itself (+1)
             if (item.second.get() && (!expired_only || !LangToolkit::hasAnyLangRefs(item.second.get(), 1))) {
                 m_uid_to_index.erase(item.first);
                 // grab object for destruction outside of the lock
-                to_destroy.push_back(std::move(item.second));
+                to_destroy = std::move(item.second);
                 --m_size;
             }
-        }        
-        lock.unlock();
-        // destroy outside of the lock
+            lock.unlock();
+            // destroy outside of the lock
+        }
     }
     
     void LangCache::clearDefunct()
-- 
2.43.0


From cdbac0861d2e6a89ea20b8a7873465385d1c2e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:25 +0000
Subject: [PATCH 33/85] fix: atomic blocks: detach bytearray, weak set and
 immutable memo instances

---
 src/dbzero/workspace/AtomicContext.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/dbzero/workspace/AtomicContext.cpp b/src/dbzero/workspace/AtomicContext.cpp
index 73c89da..44887d6 100644
--- a/src/dbzero/workspace/AtomicContext.cpp
+++ b/src/dbzero/workspace/AtomicContext.cpp
@@ -7,7 +7,10 @@
 #include <dbzero/object_model/set/Set.hpp>
 #include <dbzero/object_model/list/List.hpp>
 #include <dbzero/object_model/object/Object.hpp>
+#include <dbzero/object_model/object/ObjectImmutableImpl.hpp>
+#include <dbzero/object_model/set/WeakSet.hpp>
 #include <dbzero/object_model/tuple/Tuple.hpp>
+#include <dbzero/object_model/bytes/ByteArray.hpp>
 #include <dbzero/object_model/index/Index.hpp>
 
 namespace db0
@@ -56,6 +59,24 @@ namespace db0
         detachExisting(PyToolkit::getTypeManager().extractTuple(obj_ptr));
     }
     
+    // DB0_BYTES_ARRAY specialization
+    template <> void detachObject<TypeId::DB0_BYTES_ARRAY, PyToolkit>(PyObjectPtr obj_ptr) {
+        // NOTE: already registered with the context, hence extracted as mutable is side-effect free
+        detachExisting(PyToolkit::getTypeManager().extractMutableByteArray(obj_ptr));
+    }
+
+    // DB0_WEAK_SET specialization
+    template <> void detachObject<TypeId::DB0_WEAK_SET, PyToolkit>(PyObjectPtr obj_ptr) {
+        detachExisting(PyToolkit::getTypeManager().extractWeakSet(obj_ptr));
+    }
+
+    // MEMO_IMMUTABLE_OBJECT specialization
+    template <> void detachObject<TypeId::MEMO_IMMUTABLE_OBJECT, PyToolkit>(PyObjectPtr obj_ptr)
+    {
+        using MemoImmutableObject = PyToolkit::TypeManager::MemoImmutableObject;
+        detachExisting(PyToolkit::getTypeManager().extractObject<MemoImmutableObject>(obj_ptr));
+    }
+    
     template <> void registerDetachFunctions<PyToolkit>(std::vector<void (*)(PyObjectPtr)> &functions)
     {
         functions.resize(static_cast<int>(TypeId::COUNT));
@@ -66,6 +87,9 @@ namespace db0
         functions[static_cast<int>(TypeId::DB0_SET)] = detachObject<TypeId::DB0_SET, PyToolkit>;
         functions[static_cast<int>(TypeId::DB0_DICT)] = detachObject<TypeId::DB0_DICT, PyToolkit>;
         functions[static_cast<int>(TypeId::DB0_TUPLE)] = detachObject<TypeId::DB0_TUPLE, PyToolkit>;
+        functions[static_cast<int>(TypeId::DB0_BYTES_ARRAY)] = detachObject<TypeId::DB0_BYTES_ARRAY, PyToolkit>;
+        functions[static_cast<int>(TypeId::DB0_WEAK_SET)] = detachObject<TypeId::DB0_WEAK_SET, PyToolkit>;
+        functions[static_cast<int>(TypeId::MEMO_IMMUTABLE_OBJECT)] = detachObject<TypeId::MEMO_IMMUTABLE_OBJECT, PyToolkit>;
     }
     
     AtomicContext::AtomicContext(std::shared_ptr<Workspace> &workspace, std::unique_lock<std::mutex> &&lock)
-- 
2.43.0


From aa13279fc6c0e272feb2900af1d0085373e1f258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:25 +0000
Subject: [PATCH 34/85] fix: atomic cancel: drop only instances created in the
 block, purge them from the cache and detach all others

---
 src/dbzero/object_model/ObjectBase.hpp | 10 +++---
 src/dbzero/workspace/Fixture.cpp       |  9 ++++--
 src/dbzero/workspace/GC0.cpp           | 45 ++++++++++++++++++--------
 src/dbzero/workspace/GC0.hpp           | 18 +++++++----
 4 files changed, 55 insertions(+), 27 deletions(-)

diff --git a/src/dbzero/object_model/ObjectBase.hpp b/src/dbzero/object_model/ObjectBase.hpp
index 584a749..d33d117 100644
--- a/src/dbzero/object_model/ObjectBase.hpp
+++ b/src/dbzero/object_model/ObjectBase.hpp
@@ -20,13 +20,13 @@ namespace db0
         fixture.getGC0().add<T>(vptr);
     }
 
-    template <typename T> bool tryAddToGC0(Fixture &fixture, void *vptr) 
+    template <typename T> bool tryAddToGC0(Fixture &fixture, void *vptr, bool is_new)
     {
         auto gc0_ptr = fixture.tryGetGC0();
         if (!gc0_ptr) {
             return false;
         }
-        gc0_ptr->add<T>(vptr);
+        gc0_ptr->add<T>(vptr, is_new);
         return true;
     }
 
@@ -71,7 +71,7 @@ namespace db0
         ObjectBase(tag_from_address, db0::swine_ptr<Fixture> &fixture, Address address, AccessFlags access_mode = {})
             : has_fixture<BaseT>(typename has_fixture<BaseT>::tag_from_address(), fixture, address, 0, access_mode)
         {
-            m_gc_registered = tryAddToGC0<T>(*fixture, this);
+            m_gc_registered = tryAddToGC0<T>(*fixture, this, false);
         }
 
         // Move existing instance / stem
@@ -79,7 +79,7 @@ namespace db0
         ObjectBase(tag_from_stem, db0::swine_ptr<Fixture> &fixture, BaseT &&stem)
             : has_fixture<BaseT>(typename has_fixture<BaseT>::tag_from_stem(), fixture, std::move(stem))        
         {
-            m_gc_registered = tryAddToGC0<T>(*fixture, this);
+            m_gc_registered = tryAddToGC0<T>(*fixture, this, false);
         }
         
         ~ObjectBase()
@@ -106,7 +106,7 @@ namespace db0
         {
             unregister();
             initNew(fixture, std::forward<Args>(args)...);
-            m_gc_registered = tryAddToGC0<T>(*fixture, this);
+            m_gc_registered = tryAddToGC0<T>(*fixture, this, true);
         }
         
         inline bool hasInstance() const {
diff --git a/src/dbzero/workspace/Fixture.cpp b/src/dbzero/workspace/Fixture.cpp
index 0f41ff3..703e96d 100644
--- a/src/dbzero/workspace/Fixture.cpp
+++ b/src/dbzero/workspace/Fixture.cpp
@@ -478,8 +478,9 @@ namespace db0
             detach();
         }
         
-        // detach GC0 instance itself
+        // detach GC0 instance itself and all live instances (possibly attached to volatile storage)
         if (m_gc0_ptr) {
+            getGC0().detachAll();
             getGC0().detach();
         }
         
@@ -506,7 +507,11 @@ namespace db0
         assert(m_atomic_context_ptr);
         m_atomic_context_ptr = nullptr;
         m_meta_allocator.cancelAtomic();
-        getGC0().cancelAtomic();
+        // NOTE: instances created during the atomic operation must also be removed from cache
+        // since their addresses may be assigned to other instances
+        getGC0().cancelAtomic([this](Address address) {
+            m_lang_cache.erase(address);
+        });
         // rollback any uncommited changes
         rollback();
         // detach owned resources
diff --git a/src/dbzero/workspace/GC0.cpp b/src/dbzero/workspace/GC0.cpp
index eba3ebf..a9b91e6 100644
--- a/src/dbzero/workspace/GC0.cpp
+++ b/src/dbzero/workspace/GC0.cpp
@@ -74,6 +74,8 @@ namespace db0
         }
         // NOTE: we erase by vptr because hasRefs may have side effects and invalidate the iterator
         m_vptr_map.erase(vptr);
+        // NOTE: the same memory may be reused by other (possibly not volatile) instance
+        m_volatile.erase(vptr);
         lock.unlock();
         
         // drop object after erasing from map due to possible recursion
@@ -223,20 +225,41 @@ namespace db0
         m_atomic = false;
     }
     
-    void GC0::cancelAtomic()
+    void GC0::cancelAtomic(std::function<void(Address)> on_revert)
     {
         assert(m_atomic);
-        for (auto vptr : m_volatile) {
-            if (vptr) {
-                tryRemove(vptr, true);
-            }
-        }
-        // call reverse flush where it's provided (use revert=true)
         auto &ops_list = getSharedState().m_ops;
+        // call reverse flush where it's provided (use revert=true)
+        // NOTE: flush may result in destruction (i.e. removal) of any of the instances
+        std::vector<void*> flush_ptrs;
         for (auto &item : m_flush_map) {
-            ops_list[item.second].flush(item.first, true);
+            flush_ptrs.push_back(item.first);
         }
+        for (auto vptr : flush_ptrs) {
+            auto it = m_flush_map.find(vptr);
+            if (it != m_flush_map.end()) {
+                ops_list[it->second].flush(vptr, true);
+            }
+        }
+        
+        // unregister instances created during the atomic operation, since their storage is about to be discarded
+        auto volatile_ptrs = std::move(m_volatile);
         m_volatile.clear();
+        std::vector<Address> reverted;
+        for (auto vptr : volatile_ptrs) {
+            auto it = m_vptr_map.find(vptr);
+            if (it != m_vptr_map.end()) {
+                reverted.push_back(ops_list[it->second].address(vptr).first);
+                tryRemove(vptr, true);
+            }
+        }
+        if (on_revert) {
+            for (auto address : reverted) {
+                on_revert(address);
+            }
+        }
+        // all others must be detached since possibly attached to the discarded storage
+        detachAll();
         m_atomic = false;
     }
     
@@ -253,11 +276,7 @@ namespace db0
         }
 
         if (m_atomic) {
-            for (auto &volatile_ptr: m_volatile) {
-                if (volatile_ptr == vptr) {
-                    volatile_ptr = nullptr;
-                }
-            }
+            m_volatile.erase(vptr);
         }
         return flush_op;
     }
diff --git a/src/dbzero/workspace/GC0.hpp b/src/dbzero/workspace/GC0.hpp
index d02dc45..db58483 100644
--- a/src/dbzero/workspace/GC0.hpp
+++ b/src/dbzero/workspace/GC0.hpp
@@ -5,6 +5,8 @@
 
 #include <vector>
 #include <unordered_map>
+#include <unordered_set>
+#include <functional>
 #include <mutex>
 #include <optional>
 #include <dbzero/core/vspace/vtypeless.hpp>
@@ -99,7 +101,8 @@ namespace db0
         ~GC0();
         
         // register instance with type specific ops, must be a known / registered type
-        template <typename T> void add(void *vptr);
+        // @param is_new true if the underlying storage has just been created (as opposed to being loaded)
+        template <typename T> void add(void *vptr, bool is_new = true);
         // move instance from another GC0
         template <typename T> void moveFrom(GC0 &other, void *vptr);
         
@@ -127,7 +130,8 @@ namespace db0
 
         void beginAtomic();
         void endAtomic();
-        void cancelAtomic();
+        // @param on_revert called with the address of each reverted (i.e. created during the atomic operation) instance
+        void cancelAtomic(std::function<void(Address)> on_revert = {});
         
         struct CommitContext
         {
@@ -166,7 +170,7 @@ namespace db0
         // flag indicating atomic operation in progress
         bool m_atomic = false;
         // the list of volatile instances - i.e. created during atomic operation
-        std::vector<void*> m_volatile;
+        std::unordered_set<void*> m_volatile;
         mutable std::mutex m_mutex;
         
         void commitAll();
@@ -180,7 +184,7 @@ namespace db0
         }
     };
     
-    template <typename T> void GC0::add(void *vptr)
+    template <typename T> void GC0::add(void *vptr, bool is_new)
     {
         // vptr must not be null
         assert(vptr);
@@ -194,8 +198,8 @@ namespace db0
         if (ops_list[T::m_gc_ops_id].flush) {
             m_flush_map[vptr] = T::m_gc_ops_id;
         }
-        if (m_atomic) {
-            m_volatile.push_back(vptr);
+        if (m_atomic && is_new) {
+            m_volatile.insert(vptr);
         }
     }
     
@@ -209,7 +213,7 @@ namespace db0
             m_flush_map[vptr] = *flush_op;
         }
         if (m_atomic) {
-            m_volatile.push_back(vptr);
+            m_volatile.insert(vptr);
         }
     }
     
-- 
2.43.0


From 3945e6284700628982a080615c97d03a6b4de3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 35/85] fix: atomic cancel: do not upgrade cached pages on
 behalf of an atomic operation (older versions became visible after rollback)

---
 src/dbzero/core/memory/PrefixCache.cpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/dbzero/core/memory/PrefixCache.cpp b/src/dbzero/core/memory/PrefixCache.cpp
index f856613..7da395b 100644
--- a/src/dbzero/core/memory/PrefixCache.cpp
+++ b/src/dbzero/core/memory/PrefixCache.cpp
@@ -101,26 +101,23 @@ namespace db0
         
         assert(dp_lock);
         bool is_volatile = access_mode[AccessOptions::no_flush];
-            // Try upgrading the unused lock to the write state
-            // this is to avoid CoW in a writer process
-            if (access_mode[AccessOptions::write] && read_state_num != state_num) {
+        // Try upgrading the unused lock to the write state
+        // this is to avoid CoW in a writer process
+        // NOTE: must not be done on behalf of an atomic operation, since the upgraded lock gets discarded on rollback
+        // leaving the map without the most recent version (i.e. the older ones would become visible again)
+        if (access_mode[AccessOptions::write] && read_state_num != state_num && !is_volatile) {
             // unused lock condition (i.e. might only be used by the CacheRecycler)
             // note that dirty locks cannot be upgraded (otherwise data would be lost)            
             if (dp_lock->allowReuse() && dp_lock.use_count() == (dp_lock->isRecycled() ? 1 : 0) + 1) {
                 assert(read_state_num == dp_lock->getStateNum());
                 m_dp_map.erase(read_state_num, dp_lock);
-                // note that this operation may also assign the no_flush flag if it was requested
-                dp_lock->updateStateNum(state_num, is_volatile);
+                dp_lock->updateStateNum(state_num, false);
                 // re-register the upgraded lock under a new state
                 // note that the actual lock may span a wider range, avoid passing first_page / end_page here !!
                 m_dp_map.insert(state_num, dp_lock);
                 read_state_num = state_num;
                 // mark as dirty since write access was requested
                 dp_lock->setDirty();
-                // upgraded locks may need to be registered as volatile
-                if (is_volatile) {
-                    m_volatile_locks.push_back(dp_lock);
-                }
             }        
         }
         
@@ -222,7 +219,8 @@ namespace db0
         bool is_volatile = access_mode[AccessOptions::no_flush];
         // Try upgrading the unused lock to the write state
         // this is to avoid CoW in a writer process
-        if (access_mode[AccessOptions::write] && read_state_num != state_num) {
+        // NOTE: must not be done on behalf of an atomic operation (see findPage)
+        if (access_mode[AccessOptions::write] && read_state_num != state_num && !is_volatile) {
             // Unused lock condition (i.e. might only be used by the CacheRecycler)
             // note that dirty locks cannot be upgraded (otherwise data would be lost)
             // note that, on upgrade, the residual lock must be refreshed as well
@@ -234,18 +232,13 @@ namespace db0
                 assert(res_lock);
                 assert(read_state_num == wide_lock->getStateNum());
                 m_wide_map.erase(read_state_num, wide_lock);
-                // note that this operation may also assign the no_flush flag if it was requested
-                wide_lock->updateStateNum(state_num, access_mode[AccessOptions::no_flush], res_lock);
+                wide_lock->updateStateNum(state_num, false, res_lock);
                 // re-register the upgraded lock under a new state
                 // note that the actual lock may span a wider range, avoid passing first_page / end_page here !!
                 m_wide_map.insert(state_num, wide_lock);
                 // mark lock as dirty since write access was requested
                 wide_lock->setDirty();
                 read_state_num = state_num;
-                // upgraded locks may need to be registered as volatile
-                if (is_volatile) {
-                    m_volatile_wide_locks.push_back(wide_lock);
-                }
             }
         }
         
-- 
2.43.0


From 1fc80dab913142f60266c3c1acf98c1d4b81170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 36/85] fix: index: invoke the dirty callback on actual change
 only (unbalanced reference of the index object)

---
 src/dbzero/object_model/index/Index.cpp | 4 +++-
 src/dbzero/object_model/index/Index.hpp | 2 ++
 src/dbzero/workspace/GC0.cpp            | 9 ++++++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/object_model/index/Index.cpp b/src/dbzero/object_model/index/Index.cpp
index 9370a13..429cc07 100644
--- a/src/dbzero/object_model/index/Index.cpp
+++ b/src/dbzero/object_model/index/Index.cpp
@@ -274,7 +274,9 @@ namespace db0::object_model
         if (dirty) {
             getMemspace().collectForFlush(this);            
         }
-        if (m_dirty_callback) {
+        // NOTE: the callback must only be invoked on actual change, otherwise the references would get unbalanced
+        if (m_dirty_callback && m_dirty_ref != dirty) {
+            m_dirty_ref = dirty;
             m_dirty_callback(dirty);
         }
     }
diff --git a/src/dbzero/object_model/index/Index.hpp b/src/dbzero/object_model/index/Index.hpp
index c7572a7..7b5600f 100644
--- a/src/dbzero/object_model/index/Index.hpp
+++ b/src/dbzero/object_model/index/Index.hpp
@@ -100,6 +100,8 @@ namespace db0::object_model
         void flush(bool revert);
         static void flushOp(void *, bool revert);
         mutable std::function<void(bool incRef)> m_dirty_callback;
+        // flag indicating if the dirty callback's reference is being held
+        bool m_dirty_ref = false;
         
         // Set or reset dirty state
         void setDirty(bool dirty);
diff --git a/src/dbzero/workspace/GC0.cpp b/src/dbzero/workspace/GC0.cpp
index a9b91e6..21d2584 100644
--- a/src/dbzero/workspace/GC0.cpp
+++ b/src/dbzero/workspace/GC0.cpp
@@ -175,7 +175,14 @@ namespace db0
         // call flush where it's provided
         auto &ops_list = getSharedState().m_ops;
         for (auto &item : flush_ops) {
-            ops_list[item.second].flush(item.first, false);
+            // NOTE: instance might've been removed as a side effect of the preceding flush operations
+            lock.lock();
+            auto it = m_flush_map.find(item.first);
+            bool exists = it != m_flush_map.end() && it->second == item.second;
+            lock.unlock();
+            if (exists) {
+                ops_list[item.second].flush(item.first, false);
+            }
         }
     }
     
-- 
2.43.0


From 3dc08079b6e9d63bffbcb7886c86430fa223ce99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:35 +0000
Subject: [PATCH 37/85] fix: atomic cancel: revert cached class members and
 flush buffered updates before the operation starts

---
 .../collections/vector/LimitedMatrixCache.hpp | 10 +++++++
 src/dbzero/object_model/class/Class.cpp       | 26 ++++++++++++++++++-
 src/dbzero/object_model/class/Class.hpp       |  6 +++++
 src/dbzero/object_model/tags/TagIndex.cpp     |  1 +
 src/dbzero/workspace/Fixture.cpp              |  4 +++
 5 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/vector/LimitedMatrixCache.hpp b/src/dbzero/core/collections/vector/LimitedMatrixCache.hpp
index 6fd137f..5b62cfa 100644
--- a/src/dbzero/core/collections/vector/LimitedMatrixCache.hpp
+++ b/src/dbzero/core/collections/vector/LimitedMatrixCache.hpp
@@ -57,6 +57,9 @@ namespace db0
         // This operation is to handle the "detach" signal / to prevent unecessary refreshes
         void detach();
 
+        // Discard all cached items (e.g. after rollback) - to be loaded again on next refresh
+        void clear();
+
         typename super_t::const_iterator cbegin() const {
             return super_t::begin();
         }
@@ -148,6 +151,13 @@ namespace db0
         this->set(pos, std::move(item));
     }
 
+    template <typename MatrixT, typename ItemT, typename AdapterT>
+    void LimitedMatrixCache<MatrixT, ItemT, AdapterT>::clear()
+    {
+        super_t::clear();
+        m_detached = true;
+    }
+
     template <typename MatrixT, typename ItemT, typename AdapterT>
     void LimitedMatrixCache<MatrixT, ItemT, AdapterT>::detach()
     {
diff --git a/src/dbzero/object_model/class/Class.cpp b/src/dbzero/object_model/class/Class.cpp
index b8bad11..d35a833 100644
--- a/src/dbzero/object_model/class/Class.cpp
+++ b/src/dbzero/object_model/class/Class.cpp
@@ -171,6 +171,7 @@ namespace db0::object_model
             addField(name, PRIMARY_FIDELITY);
         }
         
+        reloadMembers();
         auto pos = assignSlot(fidelity);
         // reserve the slot
         m_members.set(pos, o_field { getFixture()->getLimitedStringPool(), name });
@@ -178,8 +179,21 @@ namespace db0::object_model
         return m_index[name].first;
     }
     
+    void Class::reloadMembers() const
+    {
+        if (!m_members_outdated) {
+            return;
+        }
+        m_members_outdated = false;
+        m_index.clear();
+        m_unique_keys.clear();
+        m_member_cache.clear();
+        m_member_cache.refresh();
+    }
+
     bool Class::hasSlot(const char *name, unsigned int fidelity) const
     {
+        reloadMembers();
         auto it = m_index.find(name);
         if (it == m_index.end()) {
             // try again after refreshing the cache
@@ -197,6 +211,7 @@ namespace db0::object_model
         
     std::pair<MemberID, bool> Class::findField(const char *name) const
     {
+        reloadMembers();
         // NOTE: refresh is a lightweght operation if there were no changes (no detach)
         m_member_cache.fastRefresh();
         auto it = m_index.find(name);
@@ -211,6 +226,7 @@ namespace db0::object_model
     
     std::optional<Class::Member> Class::tryGetMember(FieldID field_id) const
     {
+        reloadMembers();
         // NOTE: cache might be refreshed if not found at first attempt
         auto member_ptr = m_member_cache.tryGet(field_id.getIndexAndOffset());
         if (!member_ptr) {
@@ -221,6 +237,7 @@ namespace db0::object_model
     
     std::optional<Class::Member> Class::tryGetMember(std::pair<std::uint32_t, std::uint32_t> loc) const
     {
+        reloadMembers();
         // NOTE: cache might be refreshed if not found at first attempt
         auto member_ptr = m_member_cache.tryGet(loc);
         if (!member_ptr) {
@@ -249,6 +266,7 @@ namespace db0::object_model
 
     std::optional<Class::Member> Class::tryGetMember(const char *name) const
     {
+        reloadMembers();
         auto it = m_index.find(name);
         if (it == m_index.end()) {
             return {};
@@ -447,8 +465,11 @@ namespace db0::object_model
         m_schema.flush();
     }
     
-    void Class::rollback() {
+    void Class::rollback() 
+    {
         m_schema.rollback();
+        // NOTE: members may only be reloaded after the rollback is complete
+        m_members_outdated = true;
     }
 
     void Class::commit() const
@@ -538,6 +559,7 @@ namespace db0::object_model
     
     std::unordered_map<std::string, MemberID> Class::getMembers() const
     {              
+        reloadMembers();
         m_member_cache.refresh();
         std::unordered_map<std::string, MemberID> result;
         for (auto &item: m_index) {
@@ -591,6 +613,7 @@ namespace db0::object_model
     void Class::getSchema(std::function<void(const std::string &field_name, SchemaTypeId primary_type,
         const std::vector<SchemaTypeId> &all_types)> callback) const
     {
+        reloadMembers();
         m_member_cache.refresh();
         for (auto &item: m_index) {            
             try {
@@ -786,6 +809,7 @@ namespace db0::object_model
     
     FieldID Class::getPrimaryKey(unsigned int index) const
     {
+        reloadMembers();
         assert(index < m_unique_keys.size());
         return m_unique_keys[index];
     }
diff --git a/src/dbzero/object_model/class/Class.hpp b/src/dbzero/object_model/class/Class.hpp
index 1c4ba1b..6fd11d4 100644
--- a/src/dbzero/object_model/class/Class.hpp
+++ b/src/dbzero/object_model/class/Class.hpp
@@ -143,6 +143,7 @@ DB0_PACKED_END
         
         // Get the total number of unique members declared in this class
         std::size_t size() const {            
+            reloadMembers();
             return m_index.size();
         }
 
@@ -320,9 +321,14 @@ DB0_PACKED_END
         std::unordered_set<std::string> m_init_vars;
         const std::uint32_t m_uid = 0;
         mutable MemberCacheT m_member_cache;
+        // flag set after rollback (i.e. when cached member definitions might be outdated)
+        mutable bool m_members_outdated = false;
         // runtime flags
         bool m_no_cache = false;
         
+        // Reload cached member definitions if outdated
+        void reloadMembers() const;
+        
         // A function to retrieve the total number of instances of the schema
         std::function<unsigned int()> getTotalFunc() const;
         std::function<void(const Member &)> getRefreshCallback() const;
diff --git a/src/dbzero/object_model/tags/TagIndex.cpp b/src/dbzero/object_model/tags/TagIndex.cpp
index 886a064..b1b8f7a 100644
--- a/src/dbzero/object_model/tags/TagIndex.cpp
+++ b/src/dbzero/object_model/tags/TagIndex.cpp
@@ -318,6 +318,7 @@ namespace db0::object_model
         for (auto tag_addr: m_inc_refed_tags) {
             m_string_pool.unRefByAddr(tag_addr);
         }
+        m_inc_refed_tags.clear();
         // NOTE: also need to clear buffers which may contain incomplete objects
         m_object_cache.clear();
         m_active_cache.clear();
diff --git a/src/dbzero/workspace/Fixture.cpp b/src/dbzero/workspace/Fixture.cpp
index 703e96d..f8f5f09 100644
--- a/src/dbzero/workspace/Fixture.cpp
+++ b/src/dbzero/workspace/Fixture.cpp
@@ -451,6 +451,10 @@ namespace db0
     {
         getGC0().flushAllOf(Memspace::getForFlush());
         m_maybe_need_flush.clear();
+        // NOTE: buffers must be flushed so that only updates performed during the atomic operation are rolled back
+        for (auto &handler: m_flush_handlers) {
+            handler();
+        }
         for (auto &commit: m_close_handlers) {
             commit(true);
         }
-- 
2.43.0


From 2fcabce028eb41900b70883ce38e9779093392a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 38/85] fix: atomic: erase registrations of volatile boundary
 locks on merge (data from before the next operation got modified in place)

---
 src/dbzero/core/memory/PrefixCache.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dbzero/core/memory/PrefixCache.cpp b/src/dbzero/core/memory/PrefixCache.cpp
index 7da395b..8d04c65 100644
--- a/src/dbzero/core/memory/PrefixCache.cpp
+++ b/src/dbzero/core/memory/PrefixCache.cpp
@@ -602,6 +602,12 @@ namespace db0
         // into the underlying parent DP-locks
         // This is fine because in the head transaction we've released all boundary locks
         // so they need not to be merged
+        // NOTE: their registrations must also be erased, otherwise the range might get restored (with the subsequent
+        // atomic operation) as available for write but on top of the parent locks from before the operation
+        for (auto &lock: m_volatile_boundary_locks) {
+            eraseBoundaryRange(lock->getAddress(), lock->size(), from_state_num);
+            lock->flushBoundary();
+        }
         m_volatile_boundary_locks.clear();
         
         // first collect residual parts from dirty wide locks
-- 
2.43.0


From aeff551d771a812e659c57724ab1d4fc3eaef5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 39/85] fix: range tree bulk erase accesses items out of bounds
 when erasing non-existing keys

---
 src/dbzero/core/collections/range_tree/RangeTree.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/dbzero/core/collections/range_tree/RangeTree.hpp b/src/dbzero/core/collections/range_tree/RangeTree.hpp
index 67cc433..fb53fb5 100644
--- a/src/dbzero/core/collections/range_tree/RangeTree.hpp
+++ b/src/dbzero/core/collections/range_tree/RangeTree.hpp
@@ -188,13 +188,9 @@ DB0_PACKED_END
                 auto range = getExistingRange(*begin);
                 auto _end = end;
                 while (begin != end && range.inUpperBound(*begin)) {
+                    // NOTE: non-existing elements (e.g. out of bounds) are ignored by range.bulkErase
                     std::pop_heap(begin, end, CompT());
                     --end;
-                    if (!range.inLowerBound(*begin)) {
-                        // ignore the element out of bounds
-                        *(end + 1) = *_end;
-                        --_end;
-                    }
                 }
                 
                 // erase from current range and continue with the next one
-- 
2.43.0


From 767ad013c4fe35f603aefa109c2e33acf90763ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 40/85] fix: atomic cancel: discard deallocations made on
 behalf of the rollback (double free of reused addresses)

---
 src/dbzero/workspace/Fixture.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/workspace/Fixture.cpp b/src/dbzero/workspace/Fixture.cpp
index f8f5f09..c330116 100644
--- a/src/dbzero/workspace/Fixture.cpp
+++ b/src/dbzero/workspace/Fixture.cpp
@@ -510,7 +510,6 @@ namespace db0
     {
         assert(m_atomic_context_ptr);
         m_atomic_context_ptr = nullptr;
-        m_meta_allocator.cancelAtomic();
         // NOTE: instances created during the atomic operation must also be removed from cache
         // since their addresses may be assigned to other instances
         getGC0().cancelAtomic([this](Address address) {
@@ -527,7 +526,9 @@ namespace db0
         m_string_pool.detach();
         m_object_catalogue.detach();
         m_v_object_cache.cancelAtomic();
-        Memspace::cancelAtomic();        
+        // NOTE: must follow all of the above, since deallocations made on behalf of the rollback have to be discarded as well
+        m_meta_allocator.cancelAtomic();
+        Memspace::cancelAtomic();
     }
     
     AtomicContext *Fixture::tryGetAtomicContext() const {
-- 
2.43.0


From 296cfc061016501e75b4405903b42320436028f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:21 +0000
Subject: [PATCH 41/85] fix: each snapshot of the head state has its own view
 (closing one closed the other, stale after auto-commit)

---
 src/dbzero/workspace/Workspace.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/dbzero/workspace/Workspace.cpp b/src/dbzero/workspace/Workspace.cpp
index 7eddfd3..4095544 100644
--- a/src/dbzero/workspace/Workspace.cpp
+++ b/src/dbzero/workspace/Workspace.cpp
@@ -780,12 +780,11 @@ namespace db0
     
     std::shared_ptr<WorkspaceView> Workspace::getWorkspaceHeadView() const
     {
-        auto result = m_head_view.lock();
-        if (!result) {
-            result = std::shared_ptr<WorkspaceView>(new WorkspaceView(const_cast<Workspace&>(*this)));
-            m_head_view = result;
-            m_views.push_back(result);
-        }
+        // NOTE: each request needs its own view, a view possibly returned before may have been taken
+        // of an older state (e.g. if auto-committed since then) or may get closed by its owner
+        auto result = std::shared_ptr<WorkspaceView>(new WorkspaceView(const_cast<Workspace&>(*this)));
+        m_head_view = result;
+        m_views.push_back(result);
         return result;
     }
     
-- 
2.43.0


From 7315aa5d952c41186e2aff0ff3af95ccbc67fc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 42/85] fix: dead-lock when evicting objects from cache while
 removing other from GC0

---
 src/dbzero/workspace/GC0.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/dbzero/workspace/GC0.cpp b/src/dbzero/workspace/GC0.cpp
index 21d2584..b88d78c 100644
--- a/src/dbzero/workspace/GC0.cpp
+++ b/src/dbzero/workspace/GC0.cpp
@@ -56,27 +56,28 @@ namespace db0
         if (ops.flush) {
             m_flush_map.erase(vptr);
         }
+        m_vptr_map.erase(it);
+        // NOTE: the same memory may be reused by other (possibly not volatile) instance
+        m_volatile.erase(vptr);
+        lock.unlock();
 
         // do not drop when in read-only mode (e.g. snapshot owned)
         // NOTE: drop not allowed when commit pending
         // do not drop volatile instances
-        if (!m_read_only && ops.hasRefs && ops.drop && !is_volatile
-            && !ops.hasRefs(it->first))
-        {
+        // NOTE: hasRefs may map pages and consequently cause other instances to be evicted from cache (and removed from GC0),
+        // therefore it must not be invoked with the mutex locked
+        if (!m_read_only && ops.hasRefs && ops.drop && !is_volatile && !ops.hasRefs(vptr)) {
+            lock.lock();
             if (m_commit_pending) {
                 // must schedule for deletion since unable to drop while save is pending
-                auto addr_pair = ops.address(it->first);
+                auto addr_pair = ops.address(vptr);
                 m_scheduled_for_deletion[addr_pair.first] = addr_pair.second;
             } else {
-                // at this stage just collect the ops and remove the entry
+                // at this stage just collect the ops
                 drop_op = ops.drop;
             }
+            lock.unlock();
         }
-        // NOTE: we erase by vptr because hasRefs may have side effects and invalidate the iterator
-        m_vptr_map.erase(vptr);
-        // NOTE: the same memory may be reused by other (possibly not volatile) instance
-        m_volatile.erase(vptr);
-        lock.unlock();
         
         // drop object after erasing from map due to possible recursion
         if (drop_op) {
-- 
2.43.0


From 513ceec82f7736504412059996be92f11d2138b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 43/85] fix: index: removing an element both stored and pending
 re-addition removes it, cancelled-out elements get released on flush

---
 .../core/collections/range_tree/RangeTree.hpp       | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/dbzero/core/collections/range_tree/RangeTree.hpp b/src/dbzero/core/collections/range_tree/RangeTree.hpp
index fb53fb5..91a95cc 100644
--- a/src/dbzero/core/collections/range_tree/RangeTree.hpp
+++ b/src/dbzero/core/collections/range_tree/RangeTree.hpp
@@ -576,10 +576,9 @@ DB0_PACKED_END
 
             void remove(KeyT key, ValueT value)
             {
-                // if element is in "to add" list then simply remove it from there
-                if (m_add_items.erase(ItemT {key, value})) {
-                    return;
-                }
+                // NOTE: element from the "to add" list might also exist in the tree already,
+                // therefore must be registered for removal as well (which is no-op for non-existing ones)
+                m_add_items.erase(ItemT {key, value});
                 m_remove_items.insert(ItemT {key, value});
             }
 
@@ -589,10 +588,8 @@ DB0_PACKED_END
 
             void removeNull(ValueT value)
             {
-                // if element is in "to add" list then simply remove it from there
-                if (m_add_null_items.erase(value)) {
-                    return;
-                }
+                // see remove
+                m_add_null_items.erase(value);
                 m_remove_null_items.insert(value);
             }
 
-- 
2.43.0


From 22444a8239df5c18063ddc549cd8319a74d69916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 44/85] fix: object cache: never destroy objects from the page
 cache callback (recursion hang), clear objects added while clearing

---
 src/dbzero/object_model/LangCache.cpp | 29 +++++++++++++++------------
 src/dbzero/object_model/LangCache.hpp |  7 +++++++
 src/dbzero/workspace/Workspace.cpp    |  5 +++--
 3 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/dbzero/object_model/LangCache.cpp b/src/dbzero/object_model/LangCache.cpp
index 35903d1..7e97b6f 100644
--- a/src/dbzero/object_model/LangCache.cpp
+++ b/src/dbzero/object_model/LangCache.cpp
@@ -111,6 +111,13 @@ namespace db0
         m_uid_to_index[uid] = slot_id;        
         ++m_size;
         lock.unlock();
+        if (m_clear_requested.exchange(false)) {
+            clear(true);
+        }
+    }
+    
+    void LangCache::requestClear() {
+        m_clear_requested = true;
     }
     
     bool LangCache::erase(const Fixture &fixture, Address address, bool expired_only, bool as_defunct) {
@@ -303,24 +310,20 @@ namespace db0
     
     void LangCacheView::clear(bool expired_only, bool as_defunct)
     {
-        // copy for erase safety
-        auto objects = std::move(m_objects);
-        m_objects = {};
-        
-        // erase expired objects only
-        if (expired_only) {
-            std::unordered_set<Address> non_expired_objects;
+        std::unordered_set<Address> non_expired_objects;
+        // NOTE: destruction of an object may drop it, in which case its members may be added to cache
+        while (!m_objects.empty()) {
+            // copy for erase safety
+            auto objects = std::move(m_objects);
+            m_objects = {};
             for (auto addr: objects) {
-                if (!m_cache.erase(m_fixture_id, addr, true, as_defunct)) {
+                // erase expired objects only if requested
+                if (!m_cache.erase(m_fixture_id, addr, expired_only, as_defunct)) {
                     non_expired_objects.insert(addr);
                 }
             }
-            m_objects = std::move(non_expired_objects);
-        } else {
-            for (auto addr: objects) {
-                m_cache.erase(m_fixture_id, addr, false, as_defunct);
-            }            
         }
+        m_objects = std::move(non_expired_objects);
     }
     
 }
\ No newline at end of file
diff --git a/src/dbzero/object_model/LangCache.hpp b/src/dbzero/object_model/LangCache.hpp
index ab31ba2..0b305f4 100644
--- a/src/dbzero/object_model/LangCache.hpp
+++ b/src/dbzero/object_model/LangCache.hpp
@@ -9,6 +9,7 @@
 #include <unordered_set>
 #include <dbzero/core/utils/auto_map.hpp>
 #include <shared_mutex>
+#include <atomic>
 
 namespace db0 
 
@@ -55,6 +56,11 @@ namespace db0
         // this is to avoid instance duplication in the program (e.g. when later being fetched by UUID)
         void clear(bool expired_only);
         
+        // Request removal of instances with no existing references at the nearest safe point (i.e. when adding an instance)
+        // NOTE: instances must not be destroyed (and possibly dropped) directly from the page cache's callbacks,
+        // since the operation which requested a page might be in the middle of updating the underlying data structure
+        void requestClear();
+        
         // Release all cached instances (cannot be deleted since Python interpreter is no longer available)
         void clearDefunct();
         
@@ -86,6 +92,7 @@ namespace db0
         mutable std::vector<bool> m_visited;
         // instance UID to index in cache
         std::unordered_map<std::uint64_t, std::uint32_t> m_uid_to_index;
+        std::atomic<bool> m_clear_requested = false;
         
         bool isFull() const;
         
diff --git a/src/dbzero/workspace/Workspace.cpp b/src/dbzero/workspace/Workspace.cpp
index 4095544..a9b8dff 100644
--- a/src/dbzero/workspace/Workspace.cpp
+++ b/src/dbzero/workspace/Workspace.cpp
@@ -735,8 +735,9 @@ namespace db0
             }
             
             if (!threshold_reached) {
-                // additionally erase the entire LangCache to attempt reaching the flush objective            
-                m_lang_cache->clear(true);
+                // additionally erase the entire LangCache to attempt reaching the flush objective
+                // NOTE: deferred since this callback may get invoked from the middle of any operation
+                m_lang_cache->requestClear();
             }
         } catch (...) {
             m_cleanup_pending = false;
-- 
2.43.0


From 6d469035b13c98921bfdb261dd5ccf6310422bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 45/85] fix: tag index: retain removal of type tags of an
 object dropped with pending tag updates

---
 src/dbzero/core/collections/full_text/FT_BaseIndex.hpp | 8 ++++++++
 src/dbzero/object_model/tags/TagIndex.cpp              | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp b/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
index 08c33a2..8a615df 100644
--- a/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
+++ b/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
@@ -232,6 +232,14 @@ namespace db0
                 m_remove_set.revert(key);
             }
             
+            // Revert all additions associated with a specific key, pending removals are retained
+            void revertAdd(KeyT key)
+            {
+                std::lock_guard<std::recursive_mutex> lock(m_mutex);
+                m_commit_called = false;
+                m_add_set.revert(key);
+            }
+            
             // Cancels all modifications
             void clear();
 
diff --git a/src/dbzero/object_model/tags/TagIndex.cpp b/src/dbzero/object_model/tags/TagIndex.cpp
index b1b8f7a..a4a247e 100644
--- a/src/dbzero/object_model/tags/TagIndex.cpp
+++ b/src/dbzero/object_model/tags/TagIndex.cpp
@@ -1123,8 +1123,10 @@ namespace db0::object_model
         if (m_batch_op_long) {
             m_batch_op_long->revert(addr);
         }
+        // NOTE: type tags of a dropped object might've already been stored,
+        // therefore their removal (requested when dropping) must be retained
         if (m_batch_op_types) {
-            m_batch_op_types->revert(addr);
+            m_batch_op_types->revertAdd(addr);
         }        
     }
     
-- 
2.43.0


From 5c3e00a92415a748db81d8d286f3e7fab68e5eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 46/85] fix: objects with pending tags must not be dropped when
 unreferenced by other objects

---
 src/dbzero/object_model/tags/TagIndex.cpp | 20 ++++++++++++++++++++
 src/dbzero/object_model/tags/TagIndex.hpp |  8 ++++++++
 src/dbzero/object_model/value/Member.cpp  |  6 ++++--
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/object_model/tags/TagIndex.cpp b/src/dbzero/object_model/tags/TagIndex.cpp
index a4a247e..7b0444e 100644
--- a/src/dbzero/object_model/tags/TagIndex.cpp
+++ b/src/dbzero/object_model/tags/TagIndex.cpp
@@ -237,6 +237,7 @@ namespace db0::object_model
                 memo_ptr, m_base_index_short, m_batch_op_types, result
             );
         } else {
+            m_pending_tags.insert(memo_ptr);
             return getBatchOperation(
                 memo_ptr, m_base_index_short, m_batch_op_short, result
             );
@@ -246,6 +247,7 @@ namespace db0::object_model
     db0::FT_BaseIndex<LongTagT>::BatchOperationBuilder &
     TagIndex::getBatchOperationLong(ObjectPtr memo_ptr, ActiveValueT &result) const
     {
+        m_pending_tags.insert(memo_ptr);
         return getBatchOperation(memo_ptr, m_base_index_long, m_batch_op_long, result);
     }
     
@@ -323,6 +325,7 @@ namespace db0::object_model
         m_object_cache.clear();
         m_active_cache.clear();
         m_active_pre_cache.clear();
+        m_pending_tags.clear();
     }
 
     void TagIndex::clear()
@@ -346,6 +349,7 @@ namespace db0::object_model
         m_object_cache.clear();
         m_active_cache.clear();
         m_active_pre_cache.clear();
+        m_pending_tags.clear();
         m_inc_refed_tags.clear();
     }
     
@@ -476,6 +480,7 @@ namespace db0::object_model
         
         m_object_cache.clear();
         m_active_cache.clear();
+        m_pending_tags.clear();
         m_inc_refed_tags.clear();
     }
     
@@ -1113,6 +1118,10 @@ namespace db0::object_model
         return m_object_cache.find(addr) != m_object_cache.end();               
     }
     
+    bool TagIndex::hasPendingTags(ObjectPtr memo_ptr) const {
+        return m_pending_tags.find(memo_ptr) != m_pending_tags.end();
+    }
+    
     void TagIndex::revert(ObjectPtr memo_ptr) const
     {
         auto &memo = LangToolkit::getTypeManager().extractAnyObject(memo_ptr);
@@ -1155,6 +1164,17 @@ namespace db0::object_model
         return tag_index_ptr && tag_index_ptr->isPendingUpdate(addr);
     }
     
+    bool hasPendingTags(db0::swine_ptr<Fixture> &fixture, TagIndex::ObjectPtr memo_ptr)
+    {
+        if (fixture->getAccessType() == db0::AccessType::READ_ONLY) {
+            // no pending updates in read-only mode
+            return false;
+        }
+
+        auto tag_index_ptr = fixture->tryGet<TagIndex>();
+        return tag_index_ptr && tag_index_ptr->hasPendingTags(memo_ptr);
+    }
+    
     std::unique_ptr<TagIndex::TP_Iterator> TagIndex::makeTagProduct(
         const std::vector<const ObjectIterable*> &object_iterables, const ObjectIterable* tags_iterable) const
     {
diff --git a/src/dbzero/object_model/tags/TagIndex.hpp b/src/dbzero/object_model/tags/TagIndex.hpp
index 6600b95..41a924d 100644
--- a/src/dbzero/object_model/tags/TagIndex.hpp
+++ b/src/dbzero/object_model/tags/TagIndex.hpp
@@ -119,6 +119,9 @@ DB0_PACKED_END
         // which may affect a future state of the object (e.g. add tags or drop)
         bool isPendingUpdate(UniqueAddress) const;
 
+        // Check if there're any pending tag operations (other than type tags) for a specific object
+        bool hasPendingTags(ObjectPtr memo_ptr) const;
+
         bool empty() const;
         
         // Create a join query iterator (aka TagProduct)
@@ -157,6 +160,8 @@ DB0_PACKED_END
         mutable std::unordered_map<ObjectPtr, UniqueAddress> m_active_cache;
         // Additional buffer to preserve / release ownership for active-cache objects
         mutable std::unordered_set<ObjectSharedExtPtr> m_active_pre_cache;
+        // Objects (held by the above caches) with any pending tag operations, other than type tags
+        mutable std::unordered_set<ObjectPtr> m_pending_tags;
         db0::weak_swine_ptr<Fixture> m_fixture;
         // the associated fixture UUID (for validation purposes)
         const std::uint64_t m_fixture_uuid;
@@ -335,4 +340,7 @@ DB0_PACKED_END
     // Check if the object is pending update in the TagIndex withih a specific fixture
     bool isObjectPendingUpdate(db0::swine_ptr<Fixture> &fixture, UniqueAddress);
     
+    // Check if the object has any pending tag operations (other than type tags) in the TagIndex withih a specific fixture
+    bool hasPendingTags(db0::swine_ptr<Fixture> &fixture, TagIndex::ObjectPtr memo_ptr);
+    
 }
diff --git a/src/dbzero/object_model/value/Member.cpp b/src/dbzero/object_model/value/Member.cpp
index 291e620..edacf52 100644
--- a/src/dbzero/object_model/value/Member.cpp
+++ b/src/dbzero/object_model/value/Member.cpp
@@ -4,6 +4,7 @@
 #include "Member.hpp"
 #include <dbzero/core//serialization/Serializable.hpp>
 #include <dbzero/object_model/tags/ObjectIterator.hpp>
+#include <dbzero/object_model/tags/TagIndex.hpp>
 #include <dbzero/object_model/enum/Enum.hpp>
 #include <dbzero/object_model/enum/EnumValue.hpp>
 #include <dbzero/object_model/enum/EnumFactory.hpp>
@@ -715,8 +716,9 @@ namespace db0::object_model
             object.decRef(false);
             if (!object.hasRefs()) {
                 // NOTE: we'll drop the object immediately on condition it has no language references
-                if (!LangToolkit::hasLangRefs(*obj_ptr)) {
-                    auto unique_addr = object.getUniqueAddress();                    
+                // and no pending tags (otherwise it's only known if still referenced after these get flushed)
+                if (!LangToolkit::hasLangRefs(*obj_ptr) && !hasPendingTags(fixture, obj_ptr.get())) {
+                    auto unique_addr = object.getUniqueAddress();
                     // drop dbzero instance, replacing it with a "null" placeholder
                     object.dropInstance(lock);
                     // might also be removed from lang cache                    
-- 
2.43.0


From 99d4dc0fa94b7979de5ac5ee0a515c831cc6e925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:41 +0000
Subject: [PATCH 47/85] fix: queries held or iterated across commits / tag
 updates read freed memory (own mapping, re-open relocated lists)

---
 .../core/collections/b_index/mb_index.hpp     | 12 ++++++
 .../collections/full_text/FT_BaseIndex.cpp    | 29 ++++++++++++-
 .../collections/full_text/FT_BaseIndex.hpp    | 23 ++++++++--
 .../full_text/FT_IndexIterator.hpp            | 30 +++++++++++--
 .../object_model/tags/ObjectIterator.cpp      | 43 +++++++++++++++++++
 .../object_model/tags/ObjectIterator.hpp      | 10 +++++
 src/dbzero/object_model/tags/Slice.cpp        |  9 +++-
 src/dbzero/object_model/tags/Slice.hpp        |  2 +
 src/dbzero/object_model/tags/TagIndex.cpp     |  4 ++
 src/dbzero/object_model/tags/TagIndex.hpp     |  3 ++
 10 files changed, 155 insertions(+), 10 deletions(-)

diff --git a/src/dbzero/core/collections/b_index/mb_index.hpp b/src/dbzero/core/collections/b_index/mb_index.hpp
index b5bb858..9d6aa98 100644
--- a/src/dbzero/core/collections/b_index/mb_index.hpp
+++ b/src/dbzero/core/collections/b_index/mb_index.hpp
@@ -116,6 +116,18 @@ namespace db0
         {
         }
 
+		/**
+		 * Open own instance of the same (existing) collection.
+		 * NOTE: regular copies share the underlying collection instance (and its memory mapping)
+		 */
+		MorphingBIndex reopen() const
+		{
+			if (isNull()) {
+				return *this;
+			}
+			return MorphingBIndex(*m_memspace_ptr, getAddress(), getIndexType(), m_sv_limit);
+		}
+
 		// construct a static typeId (required for serialization)
 		static auto getSerialTypeId()
 		{
diff --git a/src/dbzero/core/collections/full_text/FT_BaseIndex.cpp b/src/dbzero/core/collections/full_text/FT_BaseIndex.cpp
index c8a0760..f6f1fc5 100644
--- a/src/dbzero/core/collections/full_text/FT_BaseIndex.cpp
+++ b/src/dbzero/core/collections/full_text/FT_BaseIndex.cpp
@@ -47,7 +47,7 @@ namespace db0
             return nullptr;
         }
         return std::unique_ptr<FT_Iterator<KeyT> >(
-            new FT_IndexIterator<ListT, KeyT, IndexKeyT>(*inverted_list_ptr, direction, key)
+            new FT_IndexIterator<ListT, KeyT, IndexKeyT>(getSource(key), direction, key)
         );
     }
     
@@ -62,11 +62,35 @@ namespace db0
         
         // key inverted index
         factory.add(std::unique_ptr<FT_Iterator<KeyT> >(
-            new FT_IndexIterator<ListT, KeyT, IndexKeyT>(*inverted_list_ptr, -1, key))
+            new FT_IndexIterator<ListT, KeyT, IndexKeyT>(getSource(key), -1, key))
         );
         return true;
     }
     
+    template <typename IndexKeyT, typename KeyT, typename IndexValueT>
+    std::function<typename FT_BaseIndex<IndexKeyT, KeyT, IndexValueT>::super_t::ListT()> 
+    FT_BaseIndex<IndexKeyT, KeyT, IndexValueT>::getSource(IndexKeyT key) const
+    {
+        using ListT = typename super_t::ListT;
+        std::weak_ptr<const self_t*> handle = m_handle;
+        auto &memspace = this->getMemspace();
+        return [handle, key, &memspace]() -> ListT {
+            auto index_ptr = handle.lock();
+            if (!index_ptr) {
+                THROWF(db0::InputException) << "Query is no longer accessible (prefix or snapshot closed)" << THROWF_END;
+            }
+            auto inverted_list_ptr = (*index_ptr)->tryGetExistingInvertedList(key);
+            return inverted_list_ptr ? inverted_list_ptr->reopen() : ListT(memspace);
+        };
+    }
+
+    template <typename IndexKeyT, typename KeyT, typename IndexValueT>
+    void FT_BaseIndex<IndexKeyT, KeyT, IndexValueT>::detach() const
+    {
+        super_t::detach();
+        ++m_version;
+    }
+
     template <typename IndexKeyT, typename KeyT, typename IndexValueT>
 	std::shared_ptr<typename FT_BaseIndex<IndexKeyT, KeyT, IndexValueT>::BatchOperation> 
     FT_BaseIndex<IndexKeyT, KeyT, IndexValueT>::getBatchOperation() const
@@ -283,6 +307,7 @@ namespace db0
 			// 2. lock this BatchOperation object
 			std::unique_lock<std::recursive_mutex> lock(m_mutex);
             m_commit_called = true;
+            ++m_base_index_ptr->m_version;
             // add tags
             {
                 TagValueList add_set(std::move(m_add_set));
diff --git a/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp b/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
index 8a615df..34dad9b 100644
--- a/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
+++ b/src/dbzero/core/collections/full_text/FT_BaseIndex.hpp
@@ -53,12 +53,12 @@ namespace db0
         {
             using ListT = typename super_t::ListT;
             bool result = false;
-            std::vector<std::pair<IndexKeyT, const ListT*> > inverted_lists;
+            std::vector<IndexKeyT> keys;
             for (auto key: key_sequence) {
                 auto inverted_list_ptr = this->tryGetExistingInvertedList(key);
                 if (inverted_list_ptr) {
                     result = true;
-                    inverted_lists.emplace_back(key, inverted_list_ptr);
+                    keys.push_back(key);
                 } else {
                     if (all) {
                         return false;
@@ -67,10 +67,10 @@ namespace db0
             }
             
             // build query tree
-            for (const auto &inverted_list: inverted_lists) {
+            for (auto key: keys) {
                 // key inverted index
                 factory.add(std::unique_ptr<FT_Iterator<KeyT> >(
-                    new FT_IndexIterator<ListT, KeyT>(*inverted_list.second, -1, inverted_list.first))
+                    new FT_IndexIterator<ListT, KeyT, IndexKeyT>(getSource(key), -1, key))
                 );
             }
             return result;
@@ -299,8 +299,23 @@ namespace db0
         */
         BatchOperationBuilder beginBatchUpdate() const;
         
+        // The number changes each time when the inverted lists might've been modified
+        // (i.e. existing iterators should no longer be used)
+        std::uint64_t getVersion() const {
+            return m_version;
+        }
+
+        void detach() const;
+        
     protected:
         mutable progressive_mutex m_mutex;
+        mutable std::uint64_t m_version = 0;
+        // the handle for iterators to find out if the index still exists
+        std::shared_ptr<const self_t*> m_handle = std::make_shared<const self_t*>(this);
+
+        // Create function to open own instance of the inverted list related with a specific key
+        // (empty when such list does not exist)
+        std::function<typename super_t::ListT()> getSource(IndexKeyT key) const;
     };
     
     extern template class FT_BaseIndex<std::uint64_t, UniqueAddress>;
diff --git a/src/dbzero/core/collections/full_text/FT_IndexIterator.hpp b/src/dbzero/core/collections/full_text/FT_IndexIterator.hpp
index e4b0b30..3882f65 100644
--- a/src/dbzero/core/collections/full_text/FT_IndexIterator.hpp
+++ b/src/dbzero/core/collections/full_text/FT_IndexIterator.hpp
@@ -9,6 +9,7 @@
 #include <dbzero/core/collections/b_index/mb_index.hpp>
 #include <dbzero/core/serialization/Serializable.hpp>
 #include <optional>
+#include <functional>
 
 namespace db0
 
@@ -26,8 +27,16 @@ namespace db0
 		using super_t = FT_Iterator<key_t>;
 		using iterator = typename bindex_t::joinable_const_iterator;
 
+		// The function to open own instance of the (current) data collection
+		using SourceFunctionT = std::function<bindex_t()>;
+
 		FT_IndexIterator(const bindex_t &data, int direction, std::optional<IndexKeyT> index_key = {});
 
+		/**
+		 * Construct over a collection which may get relocated (or removed) while the iterator (query) exists
+		 */
+		FT_IndexIterator(SourceFunctionT source, int direction, std::optional<IndexKeyT> index_key = {});
+
 		/**
          * Construct over already initialized simple iterator
          */
@@ -87,9 +96,10 @@ namespace db0
         bool m_has_detach_key = false;
         key_t m_detach_key;
         const std::optional<IndexKeyT> m_index_key;
+		SourceFunctionT m_source;
 
 		FT_IndexIterator(std::uint64_t uid, const bindex_t &data, int direction, 
-			std::optional<IndexKeyT> index_key = {});
+			std::optional<IndexKeyT> index_key = {}, SourceFunctionT source = {});
 
         /**
          * Get valid iterator after detach
@@ -118,6 +128,17 @@ namespace db0
     {
     }
 	
+	template <typename bindex_t, typename key_t, typename IndexKeyT>
+	FT_IndexIterator<bindex_t, key_t, IndexKeyT>::FT_IndexIterator(SourceFunctionT source, int direction, 
+		std::optional<IndexKeyT> index_key)
+        : m_data(source())
+        , m_direction(direction)
+        , m_iterator(m_data.beginJoin(direction))
+        , m_index_key(index_key)
+        , m_source(source)
+    {
+    }
+
 	template <typename bindex_t, typename key_t, typename IndexKeyT>
 	FT_IndexIterator<bindex_t, key_t, IndexKeyT>::FT_IndexIterator(const bindex_t &data, int direction, const iterator &it,
 	    std::optional<IndexKeyT> index_key)
@@ -130,12 +151,13 @@ namespace db0
 
 	template <typename bindex_t, typename key_t, typename IndexKeyT>
 	FT_IndexIterator<bindex_t, key_t, IndexKeyT>::FT_IndexIterator(std::uint64_t uid, const bindex_t &data, int direction, 
-		std::optional<IndexKeyT> index_key)
+		std::optional<IndexKeyT> index_key, SourceFunctionT source)
 		: FT_Iterator<key_t>(uid)
         , m_data(data)
         , m_direction(direction)
         , m_iterator(m_data.beginJoin(direction))
         , m_index_key(index_key)
+        , m_source(source)
     {
     }
 
@@ -196,7 +218,9 @@ namespace db0
 	
 	template <typename bindex_t, typename key_t, typename IndexKeyT>
 	std::unique_ptr<FT_Iterator<key_t> > FT_IndexIterator<bindex_t, key_t, IndexKeyT>::beginTyped(int direction) const {
-		return std::unique_ptr<FT_Iterator<key_t> >(new FT_IndexIterator(this->m_uid, m_data, direction, this->m_index_key));
+		return std::unique_ptr<FT_Iterator<key_t> >(new FT_IndexIterator(
+			this->m_uid, m_source ? m_source() : m_data, direction, this->m_index_key, m_source)
+		);
 	}
 
 	template <typename bindex_t, typename key_t, typename IndexKeyT>
diff --git a/src/dbzero/object_model/tags/ObjectIterator.cpp b/src/dbzero/object_model/tags/ObjectIterator.cpp
index 300cead..cf2ee73 100644
--- a/src/dbzero/object_model/tags/ObjectIterator.cpp
+++ b/src/dbzero/object_model/tags/ObjectIterator.cpp
@@ -23,6 +23,8 @@ namespace db0::object_model
         , m_decoration(std::move(query_observers))
         , m_slice(m_iterator_ptr, slice_def)
     {
+        m_version = fixture->get<TagIndex>().getVersion();
+        onMoved();
     }
 
     ObjectIterator::ObjectIterator(db0::swine_ptr<Fixture> fixture, std::unique_ptr<SortedIterator> &&sorted_iterator,
@@ -41,6 +43,8 @@ namespace db0::object_model
         , m_decoration(std::move(m_query_observers))
         , m_slice(m_iterator_ptr, m_slice_def)    
     {
+        m_version = getFixture()->get<TagIndex>().getVersion();
+        onMoved();
     }
     
     ObjectIterator::Decoration::Decoration(std::vector<std::unique_ptr<QueryObserver> > &&query_observers)
@@ -52,6 +56,7 @@ namespace db0::object_model
     ObjectIterator::ObjectSharedPtr ObjectIterator::next()
     {
         for (;;) {
+            refresh();
             if (!m_slice.isEnd()) {
                 // Collect decorators if any exist
                 if (!m_decoration.empty()) {
@@ -63,6 +68,7 @@ namespace db0::object_model
                 }
                 db0::UniqueAddress addr;
                 m_slice.next(&addr);
+                onMoved();
                 auto obj_ptr = unload(addr);
                 // check filters if any                
                 for (auto &filter: m_filters) {
@@ -83,12 +89,49 @@ namespace db0::object_model
     std::size_t ObjectIterator::skip(std::size_t count)
     {
         std::size_t skipped = 0;
+        refresh();
         while (skipped < count && !m_slice.isEnd()) {
             m_slice.next();
             ++skipped;
         }
+        onMoved();
         return skipped;
     }
+
+    void ObjectIterator::onMoved()
+    {
+        if (m_query_iterator && !m_slice.isEnd()) {
+            m_next_key = m_query_iterator->getKey();
+        } else {
+            m_next_key.reset();
+        }
+    }
+
+    void ObjectIterator::refresh()
+    {
+        // NOTE: sorted iterators and factories can't be positioned by key
+        if (!m_next_key || m_factory) {
+            return;
+        }
+        auto version = getFixture()->get<TagIndex>().getVersion();
+        if (version == m_version) {
+            return;
+        }
+        auto query_iterator = m_query_iterator->beginTyped(-1);
+        std::vector<std::unique_ptr<QueryObserver> > query_observers;
+        for (auto &observer: m_decoration.m_query_observers) {
+            query_observers.push_back(observer->rebase(*query_iterator));
+        }
+        if (!query_iterator->isEnd()) {
+            query_iterator->join(*m_next_key, -1);
+        }
+        m_decoration.m_query_observers = std::move(query_observers);
+        m_iterator_ptr = query_iterator.get();
+        m_slice.rebase(m_iterator_ptr);
+        m_query_iterator = std::move(query_iterator);
+        m_version = version;
+        onMoved();
+    }
     
     ObjectIterator::ObjectSharedPtr ObjectIterator::unload(db0::swine_ptr<Fixture> &fixture, Address address) const
     {
diff --git a/src/dbzero/object_model/tags/ObjectIterator.hpp b/src/dbzero/object_model/tags/ObjectIterator.hpp
index be66e28..1561637 100644
--- a/src/dbzero/object_model/tags/ObjectIterator.hpp
+++ b/src/dbzero/object_model/tags/ObjectIterator.hpp
@@ -90,6 +90,16 @@ namespace db0::object_model
         
         Decoration m_decoration;
         Slice m_slice;        
+        // tag-index version the query iterator was created with
+        std::uint64_t m_version = 0;
+        // the next key to be visited
+        std::optional<UniqueAddress> m_next_key;
+
+        // Must be called after moving the underlying iterator
+        void onMoved();
+        // Make sure that the query iterator is valid. Tag assignments might've been modified since the last call
+        // in which case it needs to be created again, to continue from the same key
+        void refresh();
         
         // Unload object by address (must be from this iterator) skipping instance ID validation        
         virtual ObjectSharedPtr unload(Address) const;
diff --git a/src/dbzero/object_model/tags/Slice.cpp b/src/dbzero/object_model/tags/Slice.cpp
index 0d466f4..9ef9486 100644
--- a/src/dbzero/object_model/tags/Slice.cpp
+++ b/src/dbzero/object_model/tags/Slice.cpp
@@ -58,5 +58,12 @@ namespace db0::object_model
             m_iterator_ptr = nullptr;
         }
     }
+
+    void Slice::rebase(BaseIterator *base_iterator)
+    {
+        if (m_iterator_ptr) {
+            m_iterator_ptr = base_iterator;
+        }
+    }
     
-}
\ No newline at end of file
+}
diff --git a/src/dbzero/object_model/tags/Slice.hpp b/src/dbzero/object_model/tags/Slice.hpp
index d0fdcc6..e2142f4 100644
--- a/src/dbzero/object_model/tags/Slice.hpp
+++ b/src/dbzero/object_model/tags/Slice.hpp
@@ -40,6 +40,8 @@ namespace db0::object_model
 
         bool isEnd() const;
         void next(void *buf = nullptr);
+        // continue (from the same position) with another iterator
+        void rebase(BaseIterator *);
 
     private:
         const SliceDef m_slice_def;
diff --git a/src/dbzero/object_model/tags/TagIndex.cpp b/src/dbzero/object_model/tags/TagIndex.cpp
index 7b0444e..6a7a197 100644
--- a/src/dbzero/object_model/tags/TagIndex.cpp
+++ b/src/dbzero/object_model/tags/TagIndex.cpp
@@ -973,6 +973,10 @@ namespace db0::object_model
         return m_base_index_long;
     }
 
+    std::uint64_t TagIndex::getVersion() const {
+        return m_base_index_short.getVersion() + m_base_index_long.getVersion();
+    }
+
     std::unique_ptr<TagIndex::QueryIterator> TagIndex::makeIterator(ObjectPtr obj_ptr) const {
         assert(obj_ptr);
         return makeIterator(getShortTag(obj_ptr));
diff --git a/src/dbzero/object_model/tags/TagIndex.hpp b/src/dbzero/object_model/tags/TagIndex.hpp
index 41a924d..76cd607 100644
--- a/src/dbzero/object_model/tags/TagIndex.hpp
+++ b/src/dbzero/object_model/tags/TagIndex.hpp
@@ -109,6 +109,9 @@ DB0_PACKED_END
         db0::FT_BaseIndex<ShortTagT> &getBaseIndexShort();
         const db0::FT_BaseIndex<ShortTagT> &getBaseIndexShort() const;
         const db0::FT_BaseIndex<LongTagT> &getBaseIndexLong() const;
+
+        // The number changes each time when tag assignments might've been modified
+        std::uint64_t getVersion() const;
         
         // add a defunct object (failed on __init__)
         void addDefunct(ObjectPtr memo_ptr) const;
-- 
2.43.0


From 7b03fc37a473b333837c9563331969dd2a6bc593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 48/85] fix: removing a tag from a foreign scope removes it
 (instead of a local tag of the same address)

---
 src/dbzero/object_model/tags/TagIndex.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/dbzero/object_model/tags/TagIndex.cpp b/src/dbzero/object_model/tags/TagIndex.cpp
index 6a7a197..8c6ecf8 100644
--- a/src/dbzero/object_model/tags/TagIndex.cpp
+++ b/src/dbzero/object_model/tags/TagIndex.cpp
@@ -291,11 +291,23 @@ namespace db0::object_model
             auto type_id = LangToolkit::getTypeManager().getTypeId(args[i]);
             // must check for string since it's an iterable as well
             if (type_id != TypeId::STRING && LangToolkit::isIterable(args[i])) {
-                batch_operation->removeTags(active_key,
-                    IterableSequence(LangToolkit::getIterator(args[i]), ForwardIterator::end(), [&](ObjectSharedPtr arg) {
-                        return getShortTag(arg.get());
-                    })
-                );
+                if (isLongTag(args[i])) {
+                    // sequence (pair) may represent a single long tag
+                    getBatchOperationLong(memo_ptr, active_key)->removeTag(active_key, getLongTag(type_id, args[i]));
+                } else {
+                    batch_operation->removeTags(active_key,
+                        IterableSequence(LangToolkit::getIterator(args[i]), ForwardIterator::end(), [&](ObjectSharedPtr arg) {
+                            if (isLongTag(LangToolkit::getTypeManager().getTypeId(arg.get()), arg.get())) {
+                                THROWF(db0::InputException) << "Unable to remove foreign tag";
+                            }
+                            return getShortTag(arg.get());
+                        })
+                    );
+                }
+                m_mutation_log->onDirty();
+            } else if (isLongTag(type_id, args[i])) {
+                // a tag from the foreign scope
+                getBatchOperationLong(memo_ptr, active_key)->removeTag(active_key, getLongTag(type_id, args[i]));
                 m_mutation_log->onDirty();
             } else {
                 batch_operation->removeTag(active_key, getShortTag(type_id, args[i]));
-- 
2.43.0


From fe47cd140a1de717346c67deffa094b56d32c8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 49/85] fix: tuple iterator must not retain pointers to the
 tuple's data (read freed memory when committed while iterating)

---
 src/dbzero/object_model/tuple/TupleIterator.cpp | 7 ++++---
 src/dbzero/object_model/tuple/TupleIterator.hpp | 4 ++++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dbzero/object_model/tuple/TupleIterator.cpp b/src/dbzero/object_model/tuple/TupleIterator.cpp
index a8da4de..285db74 100644
--- a/src/dbzero/object_model/tuple/TupleIterator.cpp
+++ b/src/dbzero/object_model/tuple/TupleIterator.cpp
@@ -15,15 +15,16 @@ namespace db0::object_model
     
     TupleIterator::ObjectSharedPtr TupleIterator::next()
     {
-        auto [storage_class, value] = *m_iterator;
-        ++m_iterator;
+        // NOTE: the tuple's data may get re-mapped at any time (e.g. by the auto-commit), don't retain pointers
+        auto [storage_class, value] = m_collection->getData()->items()[m_index];
+        ++m_index;
         auto fixture = m_collection->getFixture();
         return unloadMember<LangToolkit>(fixture, storage_class, value, 0, m_member_flags);
     }
     
     bool TupleIterator::is_end() const
     {        
-        return m_iterator == m_collection->getData()->items().end();
+        return m_index >= m_collection->size();
     }
     
 }
\ No newline at end of file
diff --git a/src/dbzero/object_model/tuple/TupleIterator.hpp b/src/dbzero/object_model/tuple/TupleIterator.hpp
index 1d9d760..d538413 100644
--- a/src/dbzero/object_model/tuple/TupleIterator.hpp
+++ b/src/dbzero/object_model/tuple/TupleIterator.hpp
@@ -27,6 +27,10 @@ namespace db0::object_model
     protected:
         friend class Tuple;
         TupleIterator(Tuple::const_iterator iterator, const Tuple *ptr, ObjectPtr lang_tuple_ptr);
+
+    private:
+        // the next item's index
+        std::size_t m_index = 0;
     };
     
 }
\ No newline at end of file
-- 
2.43.0


From e391268fb28d614b1998bb3460a4a7f047745bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:07 +0000
Subject: [PATCH 50/85] fix: a query slice which ends before its start is
 empty, as in Python

---
 src/dbzero/bindings/python/iter/PyObjectIterable.cpp | 3 ++-
 src/dbzero/object_model/tags/Slice.cpp               | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/dbzero/bindings/python/iter/PyObjectIterable.cpp b/src/dbzero/bindings/python/iter/PyObjectIterable.cpp
index 7ef3c05..05c4be0 100644
--- a/src/dbzero/bindings/python/iter/PyObjectIterable.cpp
+++ b/src/dbzero/bindings/python/iter/PyObjectIterable.cpp
@@ -127,8 +127,9 @@ namespace db0::python
             }
             */
         } else {
+            // as in Python, a slice which starts past its end is empty
             if (start > stop) {
-                std::swap(start, stop);
+                stop = start;
             }
         }    
     }
diff --git a/src/dbzero/object_model/tags/Slice.cpp b/src/dbzero/object_model/tags/Slice.cpp
index 9ef9486..7046a59 100644
--- a/src/dbzero/object_model/tags/Slice.cpp
+++ b/src/dbzero/object_model/tags/Slice.cpp
@@ -34,10 +34,11 @@ namespace db0::object_model
         if (m_slice_def.m_start > 0 && m_iterator_ptr && !m_iterator_ptr->isEnd()) {
             m_iterator_ptr->skip(m_slice_def.m_start);
             m_pos += m_slice_def.m_start;
-            if (m_pos >= m_slice_def.m_stop) {
-                m_iterator_ptr = nullptr;
-            }
-        }    
+        }
+        // the empty slice
+        if (m_pos >= m_slice_def.m_stop) {
+            m_iterator_ptr = nullptr;
+        }
     }
     
     bool Slice::isEnd() const {
-- 
2.43.0


From b482ecb2c5f16ebddd903e4ff33826f43514e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 51/85] fix: a query of an absent tag with a negation is empty,
 not an error

---
 src/dbzero/object_model/tags/TagIndex.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbzero/object_model/tags/TagIndex.cpp b/src/dbzero/object_model/tags/TagIndex.cpp
index 8c6ecf8..f754c07 100644
--- a/src/dbzero/object_model/tags/TagIndex.cpp
+++ b/src/dbzero/object_model/tags/TagIndex.cpp
@@ -539,6 +539,7 @@ namespace db0::object_model
             if (!result) {
                 // invalidate factory since no matching results exist
                 factory.clear();
+                neg_iterators.clear();
             }
         }
         
-- 
2.43.0


From dc8b7a93a58da8140f9eb8b2e921c465734c293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 52/85] fix: iterating a split query must not leak references
 to its objects

---
 src/dbzero/bindings/python/iter/PyObjectIterator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbzero/bindings/python/iter/PyObjectIterator.cpp b/src/dbzero/bindings/python/iter/PyObjectIterator.cpp
index c664e92..09d783e 100644
--- a/src/dbzero/bindings/python/iter/PyObjectIterator.cpp
+++ b/src/dbzero/bindings/python/iter/PyObjectIterator.cpp
@@ -56,7 +56,7 @@ namespace db0::python
         auto py_item = iter.next();
         if (py_item.get()) {
             if (iter.numDecorators() > 0) {
-                return decoratedItem(py_item.steal(), iter.getDecorators());
+                return decoratedItem(*py_item, iter.getDecorators());
             } else {
                 return py_item.steal();
             }
-- 
2.43.0


From 4c6f070bd134687c103c30cd2e9ff195efb49366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 53/85] fix: objects released by the final flush get dropped on
 close (stayed visible to read-only openers)

---
 src/dbzero/workspace/Fixture.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dbzero/workspace/Fixture.cpp b/src/dbzero/workspace/Fixture.cpp
index c330116..5e2ac20 100644
--- a/src/dbzero/workspace/Fixture.cpp
+++ b/src/dbzero/workspace/Fixture.cpp
@@ -200,6 +200,12 @@ namespace db0
                     getGC0().flushAllOf(Memspace::getForFlush());
                 }
                 
+                // flush using registered flush handlers (as on a regular commit), so that instances
+                // released by the flush can still be dropped
+                for (auto &handler: m_flush_handlers) {
+                    handler();
+                }
+                
                 // clear lang cache again since flush might've released some Python instances                
                 m_lang_cache.clear(true);
 
-- 
2.43.0


From 33c55b47c669611f6bc58dfe8dd2d5930ceb8dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 54/85] fix: replacing the last local tag of an object with a
 foreign one must not remove its type tags

---
 src/dbzero/object_model/tags/TagIndex.cpp | 26 +++++++++++++++--------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/dbzero/object_model/tags/TagIndex.cpp b/src/dbzero/object_model/tags/TagIndex.cpp
index f754c07..879beb2 100644
--- a/src/dbzero/object_model/tags/TagIndex.cpp
+++ b/src/dbzero/object_model/tags/TagIndex.cpp
@@ -405,12 +405,16 @@ namespace db0::object_model
         
         // might be empty after clean-ups, check again
         if (!assureEmpty()) {
+            // objects left without references by the removal of a tag
+            // (until tagged again, i.e. later on by this flush)
+            std::unordered_map<UniqueAddress, ObjectPtr> unreferenced;
             // the purpose of callback is to incRef objects when a new tag is assigned
             std::function<void(UniqueAddress)> add_tag_callback = [&](UniqueAddress obj_addr) {
                 auto it = m_object_cache.find(obj_addr);
                 assert(it != m_object_cache.end());
                 // NOTE: inc-ref as tag
                 type_manager.extractMutableAnyObject(it->second.get()).incRef(true);
+                unreferenced.erase(obj_addr);
             };
             
             // add_index_callback adds reference to tags (string pool tokens)
@@ -427,15 +431,7 @@ namespace db0::object_model
                     auto obj_ptr = it->second.get();
                     // NOTE: we check for acutal language references (excluding LangCache + TagIndex)
                     if (LangToolkit::decRefMemo(true, obj_ptr) && !LangToolkit::hasAnyLangRefs(obj_ptr, 2)) {
-                        auto &memo = type_manager.extractAnyObject(obj_ptr);
-                        // if object is pending deletion, remove all type tags as well
-                        // we might skip this operation and leave it to Object's dropTags function
-                        // but it will be more efficient to do it here
-                        const Class *type_ptr = &memo.getType();
-                        while (type_ptr) {
-                            batch_op_types->removeTag({ obj_addr, nullptr }, type_ptr->getAddress().getOffset());
-                            type_ptr = type_ptr->getBaseClassPtr();
-                        }
+                        unreferenced.emplace(obj_addr, obj_ptr);
                     }
                 }
             };
@@ -468,6 +464,18 @@ namespace db0::object_model
                 assert(m_batch_op_long->empty());
             }
             
+            for (auto &[obj_addr, obj_ptr]: unreferenced) {
+                auto &memo = type_manager.extractAnyObject(obj_ptr);
+                // if object is pending deletion, remove all type tags as well
+                // we might skip this operation and leave it to Object's dropTags function
+                // but it will be more efficient to do it here
+                const Class *type_ptr = &memo.getType();
+                while (type_ptr) {
+                    batch_op_types->removeTag({ obj_addr, nullptr }, type_ptr->getAddress().getOffset());
+                    type_ptr = type_ptr->getBaseClassPtr();
+                }
+            }
+
             if (!m_batch_op_types.assureEmpty()) {
                 // now, scan the object cache and revert any unreferenced objects (no dbzero refs, no lang refs)
                 assert(m_active_pre_cache.empty());
-- 
2.43.0


From e1f6dc47651358791e692b8c1f467988b8e2a0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:09 +0000
Subject: [PATCH 55/85] fix: iterating a query skips objects dropped in the
 meantime

---
 src/dbzero/object_model/tags/ObjectIterator.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dbzero/object_model/tags/ObjectIterator.cpp b/src/dbzero/object_model/tags/ObjectIterator.cpp
index cf2ee73..426da1a 100644
--- a/src/dbzero/object_model/tags/ObjectIterator.cpp
+++ b/src/dbzero/object_model/tags/ObjectIterator.cpp
@@ -7,6 +7,7 @@
 #include <dbzero/workspace/Workspace.hpp>
 #include <dbzero/object_model/tags/TagIndex.hpp>
 #include <dbzero/object_model/class/ClassFactory.hpp>
+#include <dbzero/object_model/object/Object.hpp>
 #include <dbzero/core/collections/full_text/FT_Serialization.hpp>
 #include <dbzero/core/collections/range_tree/RT_Serialization.hpp>
 #include <dbzero/core/memory/Address.hpp>
@@ -70,6 +71,10 @@ namespace db0::object_model
                 m_slice.next(&addr);
                 onMoved();
                 auto obj_ptr = unload(addr);
+                if (!obj_ptr.get()) {
+                    // object dropped in the meantime
+                    continue;
+                }
                 // check filters if any                
                 for (auto &filter: m_filters) {
                     if (!filter(obj_ptr.get())) {
@@ -151,6 +156,11 @@ namespace db0::object_model
     ObjectIterator::ObjectSharedPtr ObjectIterator::unload(Address address) const
     {
         auto fixture = getFixture();
+        // NOTE: the object might've been dropped in the meantime (i.e. evicted from cache after becoming
+        // unreferenced, with removal of its tags not flushed yet)
+        if (!fixture->getLangCache().get(address).get() && !Object::checkUnload(fixture, address)) {
+            return {};
+        }
         return unload(fixture, address);
     }
 
-- 
2.43.0


From 725c74e66443a26e65e767f94525c9b12d518a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 56/85] fix: page cache: limits below one page are honoured
 without losing writes, accounting by used memory

---
 src/dbzero/core/memory/CacheRecycler.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/dbzero/core/memory/CacheRecycler.cpp b/src/dbzero/core/memory/CacheRecycler.cpp
index 3d6badf..9e2a6c0 100644
--- a/src/dbzero/core/memory/CacheRecycler.cpp
+++ b/src/dbzero/core/memory/CacheRecycler.cpp
@@ -122,11 +122,6 @@ namespace db0
                 // add new resource (if to be cached)
                 auto lock_size = res_lock->usedMem();
                 auto &res_buf = m_res_bufs[priority];                
-                if (lock_size > m_capacity) {
-                    // Cache size is too small to keep this resource
-                    // (or is uninitialized)
-                    return;
-                }
                 m_current_size[priority] += lock_size;
                 if (getCurrentSize() > m_capacity) {
                     auto flush_returned_values = _flush(lock, priority);
@@ -195,7 +190,7 @@ namespace db0
         updateSize(_lock, priority, new_size);
         auto &res_buf = m_res_bufs[priority];
         // new capacity of the fixed list should allow storing existing locks
-        auto new_max_size = std::max((m_capacity - 1) / MIN_PAGE_SIZE + 1, res_buf.size());
+        auto new_max_size = std::max(getMaxSize(m_capacity), res_buf.size());
         if (new_max_size > res_buf.max_size()) {
             // After resize, all iterators to cached elements will be invalidated!!
             res_buf.resize(new_max_size);
@@ -212,7 +207,7 @@ namespace db0
         if (res.isRecycled()) {
             res.setRecycled(false);
             int priority = res.isCached() ? 0 : 1;
-            m_current_size[priority] -= res.size();
+            m_current_size[priority] -= res.usedMem();
             m_res_bufs[priority].erase(res.m_recycle_it);
         }
     }
-- 
2.43.0


From 84a0bcbcb62c8ee2a7a38ae533e0fdf2f1fc1ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 57/85] fix: cache flush callback: pending flag must be reset
 when the flush is skipped

---
 src/dbzero/workspace/Workspace.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dbzero/workspace/Workspace.cpp b/src/dbzero/workspace/Workspace.cpp
index a9b8dff..c8e7128 100644
--- a/src/dbzero/workspace/Workspace.cpp
+++ b/src/dbzero/workspace/Workspace.cpp
@@ -725,11 +725,13 @@ namespace db0
         m_cleanup_pending = true;
         try {
             if (!BaseWorkspace::onCacheFlushed(threshold_reached)) {
+                m_cleanup_pending = false;
                 return false;
             }
             for (auto &[uuid, fixture] : m_fixtures) {
                 if (!fixture->onCacheFlushed(threshold_reached)) {
                     // unable to handle this event - e.g. due to pending commit
+                    m_cleanup_pending = false;
                     return false;
                 }
             }
-- 
2.43.0


From e56fe45fc7fcebce175296c1e87153d93f5bc905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 58/85] fix: object attribute update must locate the old slot
 after the new value was created (stale location after a cache flush)

---
 src/dbzero/object_model/object/Object.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/dbzero/object_model/object/Object.cpp b/src/dbzero/object_model/object/Object.cpp
index 0d8c914..3ab6af6 100644
--- a/src/dbzero/object_model/object/Object.cpp
+++ b/src/dbzero/object_model/object/Object.cpp
@@ -148,13 +148,7 @@ namespace db0::object_model
         auto storage_fidelity = getStorageFidelity(storage_class);
         // get field ID matching the required storage fidelity
         FieldID field_id;
-        FieldInfo old_field_info;
-        unsigned int old_pos = 0;
-        const void *old_loc_ptr = nullptr;
-        if (member_id) {
-            std::tie(old_field_info, old_loc_ptr) = tryGetMemberSlot(member_id, old_pos);
-        }
-        
+        auto old_member_id = member_id;
         if (!member_id || !(field_id = member_id.tryGet(storage_fidelity))) {
             // try mutating the class first
             member_id = m_type->addField(field_name, storage_fidelity);
@@ -170,6 +164,15 @@ namespace db0::object_model
         // make sure object address is not null
         assert(!(storage_class == StorageClass::OBJECT_REF && value.cast<std::uint64_t>() == 0));
         
+        // NOTE: must be located after creating the value, since this may cause the object's data
+        // to be unmapped (i.e. on cache flush) and the location pointer would get invalidated
+        FieldInfo old_field_info;
+        unsigned int old_pos = 0;
+        const void *old_loc_ptr = nullptr;
+        if (old_member_id) {
+            std::tie(old_field_info, old_loc_ptr) = tryGetMemberSlot(old_member_id, old_pos);
+        }
+
         if (field_id == old_field_info.first) {
             // Set / update value at the existing location
             setWithLoc(fixture, field_id, old_loc_ptr, old_pos, storage_fidelity, storage_class, value);
-- 
2.43.0


From 2cd1dbc742037f329b8e9b2e656c1fc7538f9ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 59/85] fix: index: re-adding an absent key must not be counted
 twice

---
 src/dbzero/core/collections/range_tree/RangeTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/collections/range_tree/RangeTree.hpp b/src/dbzero/core/collections/range_tree/RangeTree.hpp
index 91a95cc..af7da28 100644
--- a/src/dbzero/core/collections/range_tree/RangeTree.hpp
+++ b/src/dbzero/core/collections/range_tree/RangeTree.hpp
@@ -224,7 +224,8 @@ DB0_PACKED_END
             assert(null_block_ptr);
 
             // insert values into the null block directly
-            auto diff = null_block_ptr->bulkInsertUnique(begin, end, add_callback_ptr).first;
+            // NOTE: count actually inserted (not requested) elements only
+            auto diff = null_block_ptr->bulkInsertUnique(begin, end, add_callback_ptr).second;
             if (diff > 0) {
                 this->modify().m_size += diff;
             }
-- 
2.43.0


From b39080437e358b7c59acb8290c025e45af125d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 60/85] fix: index: objects with several keys are found in
 range queries combined with other ones

---
 .../core/collections/range_tree/FT_BoundIterator.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/collections/range_tree/FT_BoundIterator.hpp b/src/dbzero/core/collections/range_tree/FT_BoundIterator.hpp
index 10d583c..637133d 100644
--- a/src/dbzero/core/collections/range_tree/FT_BoundIterator.hpp
+++ b/src/dbzero/core/collections/range_tree/FT_BoundIterator.hpp
@@ -3,6 +3,7 @@
 
 #pragma once
 
+#include <limits>
 #include "BlockItem.hpp"
 
 namespace db0
@@ -101,7 +102,10 @@ namespace db0
     bool FT_BoundIterator<KeyT, ValueT, IndexT>::join(ValueT join_key, int direction)
     {
         assert(!super_t::isEnd());
-        if (!super_t::join(join_key, direction)) {
+        // NOTE: same value may occur under multiple keys, position at the first one of them (in the iteration's direction)
+        using ItemT = BlockItemT<KeyT, ValueT>;
+        ItemT join_item(direction > 0 ? std::numeric_limits<KeyT>::min() : std::numeric_limits<KeyT>::max(), join_key);
+        if (!super_t::getIterator().join(join_item, direction)) {
             return false;
         }
 
@@ -119,7 +123,11 @@ namespace db0
     template <typename KeyT, typename ValueT, typename IndexT>
     std::pair<ValueT, bool> FT_BoundIterator<KeyT, ValueT, IndexT>::peek(ValueT join_key) const
     {
-        throw std::runtime_error("Not implemented");
+        auto it = beginTyped(-1);
+        if (it->isEnd() || !it->join(join_key, -1)) {
+            return { ValueT(), false };
+        }
+        return { it->getKey(), true };
     }
     
     template <typename KeyT, typename ValueT, typename IndexT>
-- 
2.43.0


From 746a678a78c19d12c57f74c932bd7008f99e9201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 61/85] fix: index: key type follows the stored one after clear
 or revert

---
 src/dbzero/object_model/index/Index.cpp | 20 +++++++++++++++++---
 src/dbzero/object_model/index/Index.hpp |  3 +++
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/dbzero/object_model/index/Index.cpp b/src/dbzero/object_model/index/Index.cpp
index 429cc07..c72146a 100644
--- a/src/dbzero/object_model/index/Index.cpp
+++ b/src/dbzero/object_model/index/Index.cpp
@@ -153,12 +153,22 @@ namespace db0::object_model
                     << static_cast<std::uint16_t>(m_new_type);
         }
         // reflect modified data type with the underlying index
-        if (m_new_type != m_initial_type) {
-            m_initial_type = m_new_type;
-            m_index.modify().m_data_type = m_new_type;            
+        // NOTE: compare with the actual type since it might've been reset (e.g. on clear or revert)
+        m_initial_type = m_new_type;
+        if (m_index->m_data_type != m_new_type) {
+            m_index.modify().m_data_type = m_new_type;
         }
     }
     
+    void Index::Builder::sync()
+    {
+        if (m_index->m_data_type != m_new_type && empty()) {
+            rollback();
+            m_initial_type = m_index->m_data_type;
+            m_new_type = m_initial_type;
+        }
+    }
+
     void Index::Builder::update(TypeId type_id)
     {
         auto new_type = getIndexDataType(type_id);        
@@ -291,6 +301,7 @@ namespace db0::object_model
             return;
         }
 
+        m_builder.sync();
         if (m_builder.getDataType() == IndexDataType::Auto) {
             // update builder to a concrete data type
             m_builder.update(type_manager.getTypeId(key));
@@ -331,6 +342,7 @@ namespace db0::object_model
             return;
         }
 
+        m_builder.sync();
         if (m_builder.getDataType() == IndexDataType::Auto) {
             // update to a concrete data type
             m_builder.update(type_manager.getTypeId(key));
@@ -456,6 +468,7 @@ namespace db0::object_model
     void Index::addNull(ObjectPtr obj_ptr)
     {
         assert(hasInstance());
+        m_builder.sync();
         // subscribe for flush operation
         if (!isDirty()) {
             setDirty(true);
@@ -521,6 +534,7 @@ namespace db0::object_model
 
     void Index::removeNull(ObjectPtr obj_ptr)
     {
+        m_builder.sync();
         if (!isDirty()) {
             setDirty(true);
         }
diff --git a/src/dbzero/object_model/index/Index.hpp b/src/dbzero/object_model/index/Index.hpp
index 7b5600f..405ec57 100644
--- a/src/dbzero/object_model/index/Index.hpp
+++ b/src/dbzero/object_model/index/Index.hpp
@@ -162,6 +162,9 @@ namespace db0::object_model
                 return *static_cast<IndexBuilder<T>*>(m_index_builder.get());                
             }
 
+            // Follow the actual type of the index (which might've been reset on clear or reverted) unless updates are pending
+            void sync();
+
             // Update to a concrete data type
             void update(TypeId);
             
-- 
2.43.0


From 6341111722296022df7dd1b5d30acc7ae3e6e235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 62/85] fix: sorting by several indexes: continue after null
 keys placed first, exclude objects absent from the inner index

---
 .../range_tree/RT_SortIterator.hpp            | 48 +++++++++++++------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/dbzero/core/collections/range_tree/RT_SortIterator.hpp b/src/dbzero/core/collections/range_tree/RT_SortIterator.hpp
index 7c39ddb..67d9589 100644
--- a/src/dbzero/core/collections/range_tree/RT_SortIterator.hpp
+++ b/src/dbzero/core/collections/range_tree/RT_SortIterator.hpp
@@ -3,6 +3,7 @@
 
 #pragma once
 
+#include <unordered_set>
 #include "RangeTree.hpp"
 #include "IndexBase.hpp"
 #include "FastQueue.hpp"
@@ -100,8 +101,8 @@ namespace db0
         // the optional inner-sort iterator
         std::unique_ptr<SortedIterator<ValueT> > m_inner_it;
         std::unique_ptr<SortedIterator<ValueT> > m_sorted_it;
-        // a flag indicating that m_sorted_it was created over the null block
-        bool m_sorted_null_block = false;
+        // values present in the inner sorted iterator, collected on first use (m_inner_it != nullptr only)
+        std::unique_ptr<std::unordered_set<ValueT> > m_inner_values;
         
         // Create AND-joined with FT-iterator
         RT_SortIterator(const IndexBase &index, std::uint64_t uid, SharedPtrWrapper<RT_TreeT> tree_ptr, bool has_query,
@@ -195,6 +196,9 @@ namespace db0
          */
         bool tryNextSorted(HeapItem &, bool &next_key_null);
 
+        // Same as tryNextSorted but ignores values not present in the inner sorted iterator
+        bool tryNextJoined(HeapItem &, bool &next_key_null);
+
         // Feed the next item into the look-ahead buffer (if anything available)
         void fetchNext();
     };
@@ -258,38 +262,32 @@ namespace db0
                     if (m_sorted_it->isEnd()) {
                         m_sorted_it = nullptr;
                         m_sort_buffer.clear();
-                        if (m_sorted_null_block) {
-                            // end the iterator after completing the null block
-                            m_is_end = true;
-                        }
                     }
                     return;
                 }
                 
                 HeapItem next_item_1;
                 bool next_key_null_1 = false;
-                if (!tryNextSorted(next_item_1, next_key_null_1)) {
+                if (!tryNextJoined(next_item_1, next_key_null_1)) {
                     return;
                 }
                 
                 if (next_key_null_1) {
-                    // since the null area was reached, finish with combining the
-                    // null block and the inner sorted iterator
+                    // the null area was reached, combine the entire null block with the inner sorted iterator
+                    // NOTE: non-null keys may still follow (nulls first)
+                    m_null_it = nullptr;
                     m_sorted_it = m_inner_it->beginSorted(beginNullBlockQuery());
                     if (m_sorted_it->isEnd()) {
                         // edge case when null items cannot be joined with the inner iterator
                         m_sorted_it = nullptr;
-                        m_is_end = true;
-                        return;
                     }
-                    m_sorted_null_block = true;
                     // continue with the sorted iterator
                     continue;
                 }
 
                 HeapItem next_item_2;
                 bool next_key_null_2 = false;
-                if (!tryNextSorted(next_item_2, next_key_null_2)) {
+                if (!tryNextJoined(next_item_2, next_key_null_2)) {
                     m_lh_queue.push(std::make_pair(next_item_1, next_key_null_1));
                     return;
                 }
@@ -299,7 +297,7 @@ namespace db0
                     m_sort_buffer.push_back(next_item_1.m_value);                    
                     m_sort_buffer.push_back(next_item_2.m_value);
                     m_sort_key = next_item_1.m_key;
-                    while (tryNextSorted(next_item_2, next_key_null_2)) {
+                    while (tryNextJoined(next_item_2, next_key_null_2)) {
                         if (!next_key_null_2 && next_item_1.m_key == next_item_2.m_key) {
                             m_sort_buffer.push_back(next_item_2.m_value);
                         } else {
@@ -320,7 +318,6 @@ namespace db0
                     
                     // sort the buffer with the inner iterator
                     m_sorted_it = m_inner_it->beginSorted(std::move(inner_query));
-                    m_sorted_null_block = false;
                     // it might happen that values are not present in the inner iterator (need to be ignored)
                     if (m_sorted_it->isEnd()) {
                         m_sorted_it = nullptr;
@@ -343,6 +340,27 @@ namespace db0
         }
     }
 
+    template <typename KeyT, typename ValueT>
+    bool RT_SortIterator<KeyT, ValueT>::tryNextJoined(HeapItem &next_item, bool &next_key_null)
+    {
+        if (!m_inner_values) {
+            m_inner_values = std::make_unique<std::unordered_set<ValueT> >();
+            auto it = m_inner_it->beginSorted();
+            while (!it->isEnd()) {
+                ValueT value;
+                it->next(&value);
+                m_inner_values->insert(value);
+            }
+        }
+        while (tryNextSorted(next_item, next_key_null)) {
+            // null keys get joined with the inner iterator separately
+            if (next_key_null || m_inner_values->find(next_item.m_value) != m_inner_values->end()) {
+                return true;
+            }
+        }
+        return false;
+    }
+
     template <typename KeyT, typename ValueT>
     bool RT_SortIterator<KeyT, ValueT>::tryNextSorted(HeapItem &next_item, bool &next_key_null)
     {
-- 
2.43.0


From 2dda8f76158641a0a45a7f29e17c379ef4c28354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:39 +0000
Subject: [PATCH 63/85] fix: length and truth of a sorted query agree with its
 iteration

---
 src/dbzero/object_model/tags/ObjectIterable.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dbzero/object_model/tags/ObjectIterable.cpp b/src/dbzero/object_model/tags/ObjectIterable.cpp
index 81c5bce..b37db29 100644
--- a/src/dbzero/object_model/tags/ObjectIterable.cpp
+++ b/src/dbzero/object_model/tags/ObjectIterable.cpp
@@ -371,13 +371,14 @@ namespace db0::object_model
             return result;
         }
 
-        std::unique_ptr<ObjectIterator::QueryIterator> iter;
+        std::unique_ptr<BaseIterator> iter;
         if (m_factory) {
             iter = m_factory->createFTIterator();
         } else if (m_query_iterator) {
             iter = m_query_iterator->beginTyped(-1);
         } else if (m_sorted_iterator) {
-            iter = m_sorted_iterator->beginFTQuery();
+            // NOTE: objects not present in the index are excluded
+            iter = m_sorted_iterator->beginSorted();
         }
         
         std::size_t result = 0;
@@ -426,13 +427,14 @@ namespace db0::object_model
             return !obj_iter->next();
         }
 
-        std::unique_ptr<ObjectIterator::QueryIterator> iter;
+        std::unique_ptr<BaseIterator> iter;
         if (m_factory) {
             iter = m_factory->createFTIterator();
         } else if (m_query_iterator) {
             iter = m_query_iterator->beginTyped(-1);
         } else if (m_sorted_iterator) {
-            iter = m_sorted_iterator->beginFTQuery();
+            // NOTE: objects not present in the index are excluded
+            iter = m_sorted_iterator->beginSorted();
         }
         
         if (iter) {
-- 
2.43.0


From 329454cf09009bc2675bde508e40c68246bfc817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 64/85] fix: a commit no longer overwrites index pages the
 previous commit still needs

---
 src/dbzero/core/storage/DRAM_IOStream.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/storage/DRAM_IOStream.cpp b/src/dbzero/core/storage/DRAM_IOStream.cpp
index 48e7065..71f7cb8 100644
--- a/src/dbzero/core/storage/DRAM_IOStream.cpp
+++ b/src/dbzero/core/storage/DRAM_IOStream.cpp
@@ -211,6 +211,9 @@ namespace db0
             return std::nullopt;
         };
 
+        // page locations replaced by this flush, they must NOT be reused before the flush is complete
+        // otherwise the last consistent page version would get lost if the process terminates abruptly
+        std::vector<std::uint64_t> replaced_chunks;
         auto update_page_location = [&, this](std::uint64_t page_num, std::uint64_t address) {
             // remove address from reusable
             {
@@ -222,8 +225,8 @@ namespace db0
             auto dram_page = m_page_map.find(page_num);
             if (dram_page != m_page_map.end()) {
                 assert(dram_page->second.m_address != address);
-                // add the old page location to reusable addresses
-                m_reusable_chunks.insert(dram_page->second.m_address);
+                // collect the old page location as reusable by subsequent flush operations
+                replaced_chunks.push_back(dram_page->second.m_address);
             }
             // update to most recent location (and state number)
             m_page_map[page_num] = { state_num, address };
@@ -267,6 +270,8 @@ namespace db0
 #endif
         });
         
+        m_reusable_chunks.insert(replaced_chunks.begin(), replaced_chunks.end());
+        
         // flush all DRAM data updates before changelog updates
         BlockIOStream::flush();
         // output changelog, no RLE encoding, no duplicates
-- 
2.43.0


From 39142d73ec9a16b6bc4eec78639003fcd118ad66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:35 +0000
Subject: [PATCH 65/85] fix: page lookup: a page range that begins before the
 first index node is answered from that node

---
 .../core/collections/SGB_Tree/SGB_CompressedLookupTree.hpp   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/core/collections/SGB_Tree/SGB_CompressedLookupTree.hpp b/src/dbzero/core/collections/SGB_Tree/SGB_CompressedLookupTree.hpp
index 8819a17..99d0abf 100644
--- a/src/dbzero/core/collections/SGB_Tree/SGB_CompressedLookupTree.hpp
+++ b/src/dbzero/core/collections/SGB_Tree/SGB_CompressedLookupTree.hpp
@@ -352,8 +352,9 @@ DB0_PACKED_END
 
             auto node = base_t::lower_equal_bound(key);
             if (node == base_t::end()) {
-                // take the last node
-                --node;                
+                // all nodes start after the key, the result is the first item of the first node
+                node = base_t::begin();
+                return node->header().uncompress(*node->find_min());
             }
             
             // node will be sorted if needed (only if opened as READ/WRITE)
-- 
2.43.0


From 854bd5dcba2c41137e4d8b3d39068386cb158ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:35 +0000
Subject: [PATCH 66/85] fix: page io: advancing over a step that ends inside a
 block (copies of such a prefix were corrupt)

---
 src/dbzero/core/storage/Page_IO.cpp | 31 +++++++++++------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/dbzero/core/storage/Page_IO.cpp b/src/dbzero/core/storage/Page_IO.cpp
index e9f533e..0ef3b50 100644
--- a/src/dbzero/core/storage/Page_IO.cpp
+++ b/src/dbzero/core/storage/Page_IO.cpp
@@ -283,29 +283,22 @@ namespace db0
             THROWF(db0::InternalException) << "Page_IO::moveBy: step access not initialized";
         }
 
-        // move by the end of the current block
-        auto count = std::min(page_count, m_block_capacity - m_page_count);
-        auto new_block_num = *m_block_num + (page_count - count) / m_block_capacity + 1;
-        if (new_block_num > m_step_size) {
+        // position within the current step, after the move
+        auto pos = *m_block_num * m_block_capacity + m_page_count + page_count;
+        if (pos > m_step_size * m_block_capacity) {
             THROWF(db0::InternalException) << "Page_IO::moveBy: attempt to move beyond the current step";
         }
-        // positioned at the end of the step
-        if (new_block_num == m_step_size) {
-            --new_block_num;
-        }
         
-        auto page_diff = count + (new_block_num - *m_block_num - 1) * m_block_capacity;
-        page_count -= page_diff;
-        if (page_count > m_block_capacity) {
-            THROWF(db0::InternalException) << "Page_IO::moveBy: attempt to move beyond the current step";
+        if (page_count > 0) {
+            // NOTE: a position at the end of a block (or step) is represented as its page_count = block capacity
+            auto new_block_num = (pos - 1) / m_block_capacity;
+            auto block_diff = new_block_num - *m_block_num;
+            m_first_page_num += block_diff * m_block_capacity;
+            m_address += block_diff * m_block_size;
+            assert(m_address == m_header_size + m_first_page_num * m_page_size);
+            m_block_num = new_block_num;
+            m_page_count = pos - new_block_num * m_block_capacity;
         }
-
-        // set new position variables (might be end of the block / step)
-        m_first_page_num += page_diff;
-        m_address += page_diff * m_page_size;
-        assert(m_address == m_header_size + m_first_page_num * m_page_size);
-        m_block_num = new_block_num;
-        m_page_count = page_count;
     }
     
     std::uint32_t Page_IO::getCurrentStepRemainingPages() const
-- 
2.43.0


From 5e929cb5d9ddb1a1ddfbf1a1d420c3311708ff5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:35 +0000
Subject: [PATCH 67/85] fix: storage: register the page that takes the overflow
 of difference writes (a copy lost it)

---
 src/dbzero/core/storage/BDevStorage.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/storage/BDevStorage.cpp b/src/dbzero/core/storage/BDevStorage.cpp
index 6fc8835..3c9a703 100644
--- a/src/dbzero/core/storage/BDevStorage.cpp
+++ b/src/dbzero/core/storage/BDevStorage.cpp
@@ -425,7 +425,13 @@ namespace db0
             if (!!m_ext_space) {
                 // NOTE: first page (of each step) must be registered with REL_Index if it's maintained
                 // assign a relative page number
-                page_io_id = m_ext_space.assignRelative(page_io_id, is_first_page);
+                auto rel_page_num = m_ext_space.assignRelative(page_io_id, is_first_page);
+                if (overflow) {
+                    // NOTE: the overflowed part is stored in the following page (of the same step)
+                    // which must not share its relative page number with the next step
+                    m_ext_space.assignRelative(page_io_id + 1, false);
+                }
+                page_io_id = rel_page_num;
             }
             m_diff_index.insert(page_num, state_num, page_io_id, overflow);
         } else {
-- 
2.43.0


From 4991aa96f7bcc6a1088fe426fabb566550d28390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:11 +0000
Subject: [PATCH 68/85] fix: storage: read the overflowed part of a difference
 by its relative page number (in a copy it may belong to another step)

---
 src/dbzero/core/storage/BDevStorage.cpp |  5 ++++-
 src/dbzero/core/storage/Diff_IO.cpp     | 12 +++++-------
 src/dbzero/core/storage/Diff_IO.hpp     |  5 ++++-
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/dbzero/core/storage/BDevStorage.cpp b/src/dbzero/core/storage/BDevStorage.cpp
index 3c9a703..0286a11 100644
--- a/src/dbzero/core/storage/BDevStorage.cpp
+++ b/src/dbzero/core/storage/BDevStorage.cpp
@@ -329,12 +329,15 @@ namespace db0
             // apply changes from diff-DPs
             std::uint32_t diff_state_num;
             while (query.next(diff_state_num, page_io_id)) {
+                std::optional<std::uint64_t> next_page_io_id;
                 if (!!m_ext_space) {
                     // convert relative page number back to absolute
+                    // NOTE: the page with the overflowed part may belong to another step (if copied)
+                    next_page_io_id = m_ext_space.getAbsolute(page_io_id + 1);
                     page_io_id = m_ext_space.getAbsolute(page_io_id);
                 }
                 // apply all diff-updates on top of the full-DP
-                m_page_io.applyFrom(page_io_id, read_buf, { page_num, diff_state_num });
+                m_page_io.applyFrom(page_io_id, read_buf, { page_num, diff_state_num }, next_page_io_id);
                 // collect chain-len statistics
                 if (chain_len) {
                     ++(*chain_len);
diff --git a/src/dbzero/core/storage/Diff_IO.cpp b/src/dbzero/core/storage/Diff_IO.cpp
index 644a8b1..e680686 100644
--- a/src/dbzero/core/storage/Diff_IO.cpp
+++ b/src/dbzero/core/storage/Diff_IO.cpp
@@ -74,12 +74,11 @@ DB0_PACKED_END
             bool &underflow);
 
         // Load continued data from the next page
-        void loadNext();
+        void loadNext(std::uint64_t next_page_num);
     
     private:
         Page_IO &m_page_io;
         const std::uint32_t m_page_size;
-        const std::uint64_t m_page_num;
         std::byte * const m_begin;
         const std::byte *m_current;
         std::byte const *m_end;
@@ -170,7 +169,6 @@ DB0_PACKED_END
     DiffReader::DiffReader(Page_IO &page_io, std::uint64_t page_num, std::byte *begin, std::byte *end)
         : m_page_io(page_io)
         , m_page_size(page_io.getPageSize())
-        , m_page_num(page_num)
         , m_begin(begin)
         , m_current(begin + m_page_size)
         , m_end(end)        
@@ -217,7 +215,7 @@ DB0_PACKED_END
         return false;
     }
     
-    void DiffReader::loadNext()
+    void DiffReader::loadNext(std::uint64_t next_page_num)
     {
         assert(m_current >= (m_begin + m_page_size));
         // move underflown contents
@@ -226,7 +224,7 @@ DB0_PACKED_END
         std::memcpy(m_begin + offset, m_current, size);
         m_current = m_begin + offset;
         // read the next page
-        m_page_io.read(m_page_num + 1, m_begin + m_page_size);
+        m_page_io.read(next_page_num, m_begin + m_page_size);
         // and merge neighboring parts of the diff block (note that header gets overwritten)
         std::memmove((void*)(m_current + o_diff_header::sizeOf()), m_current, size);
         m_current += o_diff_header::sizeOf();
@@ -297,7 +295,7 @@ DB0_PACKED_END
     }
     
     void Diff_IO::applyFrom(std::uint64_t page_num, void *buffer,
-        std::pair<std::uint64_t, std::uint32_t> page_and_state) const
+        std::pair<std::uint64_t, std::uint32_t> page_and_state, std::optional<std::uint64_t> next_page_num) const
     {
         // must lock because the read-buffer is shared
         std::unique_lock<std::mutex> lock(m_mx_read);
@@ -309,7 +307,7 @@ DB0_PACKED_END
             }
             if (underflow) {
                 // repeat after fetching the next page
-                reader.loadNext();
+                reader.loadNext(next_page_num.value_or(page_num + 1));
                 continue;
             }
             THROWF(db0::InternalException) << "Diff block not found";
diff --git a/src/dbzero/core/storage/Diff_IO.hpp b/src/dbzero/core/storage/Diff_IO.hpp
index 6b47843..10eff7b 100644
--- a/src/dbzero/core/storage/Diff_IO.hpp
+++ b/src/dbzero/core/storage/Diff_IO.hpp
@@ -6,6 +6,7 @@
 #include "Page_IO.hpp"
 #include "diff_buffer.hpp"
 #include <memory>
+#include <optional>
 
 namespace db0
 
@@ -40,7 +41,9 @@ namespace db0
         // @param buffer the buffer to hold the resulting data page
         // @param page_and_state logical page and state numbers (possibly relative) to identify the diff block
         // Exception raised if the diff block is not found
-        void applyFrom(std::uint64_t page_num, void *buffer, std::pair<std::uint64_t, std::uint32_t> page_and_state) const;
+        // @param next_page_num the page holding the overflowed part of the diff block (page_num + 1 if not specified)
+        void applyFrom(std::uint64_t page_num, void *buffer, std::pair<std::uint64_t, std::uint32_t> page_and_state,
+            std::optional<std::uint64_t> next_page_num = {}) const;
         
         // Flush needs to be called before closing the stream
         // and after each transaction
-- 
2.43.0


From be05792146d3f0f95b2e763373bc6fee4b9dc435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:11 +0000
Subject: [PATCH 69/85] fix: block stream: the linked next block is occupied
 even if it has no contents yet (was handed out to another stream after
 reopening)

---
 src/dbzero/core/storage/BlockIOStream.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/core/storage/BlockIOStream.cpp b/src/dbzero/core/storage/BlockIOStream.cpp
index 37a2624..7b43750 100644
--- a/src/dbzero/core/storage/BlockIOStream.cpp
+++ b/src/dbzero/core/storage/BlockIOStream.cpp
@@ -424,7 +424,10 @@ namespace db0
             assert(false);
             THROWF(db0::InternalException) << "BlockIOStream::tail: Failed (must be EOS)";
         }
-        return m_address + m_block_size;
+        // NOTE: the next block might already be allocated even if it has no contents yet
+        // (e.g. if it only holds a part of the end of stream mark)
+        auto last_address = m_block_header.hasNext() ? std::max(m_address, static_cast<std::uint64_t>(m_block_header.m_next_block_address)) : m_address;
+        return last_address + m_block_size;
     }
     
     char *BlockIOStream::prepareChunk(std::size_t size, std::vector<char> &buffer) const
-- 
2.43.0


From 6665952471ed19e307963a767cfdc4b18e8893ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:44 +0000
Subject: [PATCH 70/85] fix: block stream: a reader retries blocks that are
 being overwritten, keeps its place before a chunk that is not complete yet,
 notices when a linked next block appears; a writer overwrites a torn linked
 block

---
 src/dbzero/core/storage/BlockIOStream.cpp | 101 +++++++++++++++-------
 src/dbzero/core/storage/BlockIOStream.hpp |   4 +
 2 files changed, 74 insertions(+), 31 deletions(-)

diff --git a/src/dbzero/core/storage/BlockIOStream.cpp b/src/dbzero/core/storage/BlockIOStream.cpp
index 7b43750..2e7e6ac 100644
--- a/src/dbzero/core/storage/BlockIOStream.cpp
+++ b/src/dbzero/core/storage/BlockIOStream.cpp
@@ -5,6 +5,10 @@
 #include <string.h>
 #include <limits>
 #include <cassert>
+#include <functional>
+#include <string_view>
+#include <thread>
+#include <chrono>
 #include <dbzero/core/exception/Exceptions.hpp>
 
 namespace db0
@@ -114,29 +118,22 @@ namespace db0
         // check if the next block can be read completely
         auto next_block_address = m_block_header.m_next_block_address;
         bool block_in_range = (m_file.size() >= next_block_address + m_block_size);
-        if (!write && !block_in_range) {
-            return false;
-        }
-
-        if (create_next_block || !block_in_range) {
-            m_address = next_block_address;
-            m_block_pos = m_block_begin;
-
+        // read full block only
+        // note that block gets rejected if checksum is not correct
+        if (create_next_block || !block_in_range || !readBlock(next_block_address, m_block_begin)) {
+            if (!write) {
+                return false;
+            }
+            
             assert(m_access_type == AccessType::READ_WRITE);
             // create a new block / overwrite incomplete block
             memset(m_block_begin, 0, m_buffer.size());
             m_modified = true;
             m_eos = true;
-        } else {
-            // read full block only
-            // note that block gets rejected if checksum is not correct        
-            if (!readBlock(next_block_address, m_block_begin)) {
-                return false;
-            }
-            
-            m_address = next_block_address;
-            m_block_pos = m_block_begin;
         }
+        m_address = next_block_address;
+        m_block_pos = m_block_begin;
+        m_next_block_seen = 0;
         ++m_block_num;
         return true;
     }
@@ -238,16 +235,36 @@ namespace db0
         if (expected_size && chunk_header.m_chunk_size != expected_size) {
             THROWF(db0::InternalException) << "BlockIOStream::readChunk: chunk size mismatch";
         }
-        skip(chunk_header.sizeOf());
+        // NOTE: peek might've moved the cursor to the begin of the next block
+        auto chunk_address = m_address;
+        auto chunk_block_num = m_block_num;
+        auto chunk_offset = m_block_pos - m_block_begin;
         assert(chunk_header.isValid());
-        if (buffer.size() < chunk_header.m_chunk_size) {
-            buffer.resize(chunk_header.m_chunk_size);
+        if (skip(chunk_header.sizeOf())) {
+            if (buffer.size() < chunk_header.m_chunk_size) {
+                buffer.resize(chunk_header.m_chunk_size);
+            }
+            if (read(buffer.data(), chunk_header.m_chunk_size)) {
+                return chunk_header.m_chunk_size;
+            }
         }
-        if (!read(buffer.data(), chunk_header.m_chunk_size)) {
-            m_eos = true;
-            return 0;
+        
+        // The chunk is incomplete, step back to its beginning since the remaining part
+        // might get appended later (by the process which is currently writing it)
+        m_eos = true;
+        if (m_address != chunk_address) {
+            if (!readBlock(chunk_address, m_block_begin)) {
+                THROWF(db0::IOException) << "BlockIOStream::readChunk: unable to step back in stream";
+            }
+            m_address = chunk_address;
+            m_block_num = chunk_block_num;
+        }
+        m_block_pos = m_block_begin + chunk_offset;
+        if (m_access_type == AccessType::READ_WRITE) {
+            // clear the incomplete chunk (will be overwritten)
+            memset(m_block_pos, 0, m_block_end - m_block_pos);
         }
-        return chunk_header.m_chunk_size;
+        return 0;
     }
     
     bool BlockIOStream::peek(void *buffer, std::size_t size, std::uint64_t *address)
@@ -364,11 +381,25 @@ namespace db0
                 for (;p1 != p1_end; ++p1, ++p2) {
                     if (*p1 != *p2) {
                         memcpy(m_block_begin, buffer.data(), buffer.size());
+                        m_next_block_seen = 0;
                         m_eos = false;
                         // contents change detected
                         return true;
                     }
-                }            
+                }
+            }
+        }
+        
+        // the next block might've been linked before its contents became available
+        if (m_block_header.hasNext() && m_block_header.m_next_block_address + m_block_size <= m_file.size()) {
+            std::vector<char> buffer(m_block_size);
+            if (readBlock(m_block_header.m_next_block_address, buffer.data())) {
+                auto next_block_seen = std::hash<std::string_view>()({ buffer.data(), buffer.size() }) | 1;
+                if (next_block_seen != m_next_block_seen) {
+                    m_next_block_seen = next_block_seen;
+                    m_eos = false;
+                    return true;
+                }
             }
         }
 
@@ -472,12 +503,19 @@ namespace db0
     {        
         if (m_checksums_enabled) {
             assert(m_temp_buf.size() == m_block_size);
-            // read into temp buffer first
-            m_file.read(address, m_temp_buf.size(), m_temp_buf.data());
-            auto ccs = checksum(m_temp_buf.data(), m_temp_block_end) ^ m_temp_block_header.calculateHeaderChecksum();
-            // compare calculated & actual checksum
-            if (ccs != m_temp_block_header.m_block_checksum) {
-                return false;
+            for (unsigned int attempt = 0;; ++attempt) {
+                // read into temp buffer first
+                m_file.read(address, m_temp_buf.size(), m_temp_buf.data());
+                auto ccs = checksum(m_temp_buf.data(), m_temp_block_end) ^ m_temp_block_header.calculateHeaderChecksum();
+                // compare calculated & actual checksum
+                if (ccs == m_temp_block_header.m_block_checksum) {
+                    break;
+                }
+                // NOTE: the block might be just being overwritten by other process, try again before rejecting it
+                if (m_access_type == AccessType::READ_WRITE || attempt == MAX_READ_ATTEMPTS) {
+                    return false;
+                }
+                std::this_thread::sleep_for(std::chrono::microseconds(100));
             }
 
             memcpy(buffer, m_temp_buf.data(), m_block_size);
@@ -503,6 +541,7 @@ namespace db0
         }
         
         m_address = address;
+        m_next_block_seen = 0;
         m_block_num = stream_pos / m_block_size;
         m_block_pos = m_block_begin + (stream_pos % m_block_size);
         // this parameter is only used for writing
diff --git a/src/dbzero/core/storage/BlockIOStream.hpp b/src/dbzero/core/storage/BlockIOStream.hpp
index ce2a275..2e783d0 100644
--- a/src/dbzero/core/storage/BlockIOStream.hpp
+++ b/src/dbzero/core/storage/BlockIOStream.hpp
@@ -264,6 +264,10 @@ DB0_PACKED_END
         // temp block header only valid when m_checksums_enabled == true
         o_block_io_cs_block_header &m_temp_block_header;
         const bool m_checksums_enabled;
+        // hash of the linked next block which was already tried as the stream's continuation (read-only mode)
+        std::size_t m_next_block_seen = 0;
+        // number of attempts to read a block which might be just being overwritten by other process
+        static constexpr unsigned int MAX_READ_ATTEMPTS = 10;
         
         /**
          * Flush modified block to disk
-- 
2.43.0


From 49734de2dd687357340bec81609163d8536600c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:44 +0000
Subject: [PATCH 71/85] fix: refresh of a read-only storage: apply consistent
 changes only, report the updates of every page exactly up to the refreshed
 state

---
 src/dbzero/core/storage/BDevStorage.cpp   | 112 ++++++++++++----------
 src/dbzero/core/storage/BDevStorage.hpp   |  12 +++
 src/dbzero/core/storage/DRAM_IOStream.cpp |  53 +++++++---
 src/dbzero/core/storage/DRAM_IOStream.hpp |  12 ++-
 4 files changed, 124 insertions(+), 65 deletions(-)

diff --git a/src/dbzero/core/storage/BDevStorage.cpp b/src/dbzero/core/storage/BDevStorage.cpp
index 0286a11..06c1a76 100644
--- a/src/dbzero/core/storage/BDevStorage.cpp
+++ b/src/dbzero/core/storage/BDevStorage.cpp
@@ -5,6 +5,8 @@
 #include "SparseIndexQuery.hpp"
 #include <unordered_set>
 #include <unordered_map>
+#include <thread>
+#include <chrono>
 #include <dbzero/core/serialization/Fixed.hpp>
 #include <dbzero/core/dram/DRAM_Prefix.hpp>
 #include <dbzero/core/dram/DRAM_Allocator.hpp>
@@ -82,10 +84,12 @@ namespace db0
             refresh();
         }
         
+        m_refreshed_state_num = m_sparse_pair.getMaxStateNum();
         // Validate state consistency
         // The state number reported by DRAM IO must NOT superseed the last state number recorded in DP changelog
         if (auto chunk_ptr = m_dp_changelog_io.getLastChangeLogChunk()) {
             auto dp_state_num = chunk_ptr->m_state_num;
+            m_dp_changelog_state_num = dp_state_num;
             auto dram_state_num = m_sparse_pair.getMaxStateNum();            
             if (dram_state_num > dp_state_num) {
                 THROWF(db0::IOException) << "Inconsistent state: DRAM state number " << dram_state_num
@@ -680,9 +684,8 @@ namespace db0
         std::uint64_t result = 0;
         // NOTE: in some situations (e.g. very slow reader) we might not be able
         // to grab the consistent snapshot of the DRAM prefix, in such case the operation
-        // needs to be retried until successful
-        // WARNING: if the reader is much slower that the writer (~100x slower) then this loop might not terminate
-        bool is_consistent = true;
+        // needs to be retried (by the following refresh if the number of attempts got exceeded)
+        unsigned int failed_count = 0;
         // continue refreshing until all updates are retrieved to guarantee a consistent state
         do {
             // safe stream positions for rollback on file read failure
@@ -692,11 +695,9 @@ namespace db0
                 assert(m_ext_dram_changelog_io);
                 ext_dram_changelog_io_pos = m_ext_dram_changelog_io->getStreamPos();
             }
-            auto dp_changelog_io_pos = m_dp_changelog_io.getStreamPos();
             // reverts streams to previous positions
             auto revert_streams = [&]() {
                 m_dram_changelog_io.setStreamPos(dram_changelog_io_pos);
-                m_dp_changelog_io.setStreamPos(dp_changelog_io_pos);
                 if (!!m_ext_space) {
                     assert(m_ext_dram_changelog_io);
                     m_ext_dram_changelog_io->setStreamPos(ext_dram_changelog_io_pos);
@@ -707,9 +708,9 @@ namespace db0
                 auto dram_state_num = m_dram_io.beginApplyChanges(m_dram_changelog_io);
                 if (!dram_state_num) {
                     // no updates to process
+                    m_refresh_pending = false;
                     break;
                 }
-                dram_changelog_io_pos = m_dram_changelog_io.getStreamPos();
                 // NOTE: ext DRAM updates have incremental nature so they might preceed DRAM updates
                 // without breaking the consistency
                 std::optional<StateNumType> ext_dram_state_num;
@@ -717,20 +718,20 @@ namespace db0
                     assert(m_ext_dram_changelog_io);
                     m_ext_dram_changelog_io->refresh();
                     ext_dram_state_num = m_ext_dram_io->beginApplyChanges(*m_ext_dram_changelog_io);
-                    ext_dram_changelog_io_pos = m_ext_dram_changelog_io->getStreamPos();
                 }
                 
                 assert(dram_state_num);
-                is_consistent = m_dram_io.completeApplyChanges(*dram_state_num);
-                if (!!m_ext_space && ext_dram_state_num) {
-                    is_consistent &= m_ext_dram_io->completeApplyChanges(*ext_dram_state_num);
-                    m_ext_space.refresh();
+                // NOTE: inconsistent changes must NOT be applied (not even partially)
+                if (!m_dram_io.canApplyChanges(*dram_state_num)
+                    || (ext_dram_state_num && !m_ext_dram_io->canApplyChanges(*ext_dram_state_num)))
+                {
+                    THROWF(db0::IOException) << "BDevStorage::refresh: inconsistent state, must be repeated";
                 }
                 
-                if (!is_consistent) {
-                    // must continue with the refresh until getting a consistent state
-                    m_dram_changelog_io.refresh();
-                    continue;
+                m_dram_io.completeApplyChanges(*dram_state_num);
+                if (ext_dram_state_num) {
+                    m_ext_dram_io->completeApplyChanges(*ext_dram_state_num);
+                    m_ext_space.refresh();
                 }
                 
                 // refresh underlying sparse index / diff index after DRAM update
@@ -746,46 +747,18 @@ namespace db0
                 
                 // send all page-update notifications to the provided handler
                 if (on_page_updated) {
-                    StateNumType updated_state_num = 0;
-                    m_dp_changelog_io.refresh();
-                    // NOTE: readers allow reading the same contents multiple times
-                    auto reader = m_dp_changelog_io.getStreamReader();
-                    // feed the reader with all available chunks, in case of IOException the stream is getting reverted
-                    // this is to make the operation atomic
-                    while (auto chunk_ptr = reader.readChangeLogChunk()) {
-                        if (chunk_ptr->m_state_num == max_state_num) {
-                            // stop at the max known state number
-                            break;
-                        }
-                        if (chunk_ptr->m_state_num > max_state_num) {
-                            // NOTE: this critical and irrecoverable error indicates corruption of the DP changelog stream
-                            THROWF(db0::InternalException) << "Inconsistent state: DP changelog state number "
-                                << chunk_ptr->m_state_num << " exceeds max known state number " << max_state_num;   
-                        }
-                    }
-                    
-                    // reset to read all updates again
-                    reader.reset();
-                    for (;;) {
-                        auto dp_change_log_ptr = reader.readChangeLogChunk();
-                        if (!dp_change_log_ptr || dp_change_log_ptr->m_state_num > max_state_num) {
-                            // end of the stream or the max known state number reached
-                            break;
-                        }
-                        
-                        assert(dp_change_log_ptr->m_state_num != updated_state_num);
-                        updated_state_num = dp_change_log_ptr->m_state_num;
-                        // Elements are logical page numbers (mutated in that transaction)
-                        for (auto page_num: *dp_change_log_ptr) {
-                            on_page_updated(page_num, updated_state_num);                            
-                        }                        
-                    }
+                    fetchPageUpdates(m_refreshed_state_num, max_state_num, on_page_updated);
                 }
+                m_refreshed_state_num = max_state_num;
                 
             } catch (db0::IOException &) {
                 revert_streams();
                 // NOTE: this may be a temporary problem, refresh needs repeating
-                break;
+                if (++failed_count == MAX_REFRESH_ATTEMPTS) {
+                    break;
+                }
+                std::this_thread::sleep_for(std::chrono::milliseconds(1));
+                continue;
             }
             
             if (!result) {
@@ -796,10 +769,47 @@ namespace db0
             // refresh cycle complete
             m_refresh_pending = false;
         }
-        while (beginRefresh() || !is_consistent);
+        while (beginRefresh());
         return result;
     }
     
+    void BDevStorage::fetchPageUpdates(StateNumType last_state_num, StateNumType max_state_num,
+        std::function<void(std::uint64_t page_num, StateNumType state_num)> on_page_updated)
+    {
+        // Collect all updates first to make the operation atomic
+        std::vector<std::pair<std::uint64_t, StateNumType> > updates;
+        StateNumType updated_state_num = last_state_num;
+        auto collect = [&](const DP_ChangeLogT &change_log) {
+            updated_state_num = change_log.m_state_num;
+            // Elements are logical page numbers (mutated in that transaction)
+            for (auto page_num: change_log) {
+                updates.emplace_back(page_num, updated_state_num);
+            }
+        };
+
+        if (m_dp_changelog_state_num > last_state_num) {
+            // NOTE: the stream is already ahead of the refreshed state (e.g. was ahead of the DRAM state on open)
+            fetchDP_ChangeLogs(last_state_num + 1, max_state_num + 1, collect);
+        }
+        
+        m_dp_changelog_io.refresh();
+        while (m_dp_changelog_state_num < max_state_num) {
+            auto chunk_ptr = m_dp_changelog_io.readChangeLogChunk();
+            if (!chunk_ptr) {
+                // NOTE: the change-log is always written before the corresponding DRAM update
+                THROWF(db0::IOException) << "BDevStorage::refresh: DP changelog not available for state number " << max_state_num;
+            }
+            m_dp_changelog_state_num = chunk_ptr->m_state_num;
+            if (chunk_ptr->m_state_num > updated_state_num && chunk_ptr->m_state_num <= max_state_num) {
+                collect(*chunk_ptr);
+            }
+        }
+
+        for (auto &update: updates) {
+            on_page_updated(update.first, update.second);
+        }
+    }
+
     std::uint64_t BDevStorage::getLastUpdated() const {
         return m_file.getLastModifiedTime();
     }
diff --git a/src/dbzero/core/storage/BDevStorage.hpp b/src/dbzero/core/storage/BDevStorage.hpp
index 94a1cac..4e5a36e 100644
--- a/src/dbzero/core/storage/BDevStorage.hpp
+++ b/src/dbzero/core/storage/BDevStorage.hpp
@@ -194,7 +194,19 @@ DB0_PACKED_END
 #endif
         
         bool m_refresh_pending = false;
+        // the state number up to which page updates have already been reported (read-only mode)
+        StateNumType m_refreshed_state_num = 0;
+        // the last state number read from the DP changelog when refreshing (read-only mode)
+        StateNumType m_dp_changelog_state_num = 0;
+        // the maximum number of attempts to get a consistent state within a single refresh
+        static constexpr unsigned int MAX_REFRESH_ATTEMPTS = 10;
         mutable std::shared_mutex m_mutex;
+
+        // Report all pages updated after last_state_num, up to max_state_num (inclusive)
+        // throws IOException (no updates get reported) if not available yet
+        void fetchPageUpdates(StateNumType last_state_num, StateNumType max_state_num,
+            std::function<void(std::uint64_t page_num, StateNumType state_num)> on_page_updated);
+
 #ifndef NDEBUG
         // total number of bytes from mutated data pages
         std::uint64_t m_page_io_raw_bytes = 0;
diff --git a/src/dbzero/core/storage/DRAM_IOStream.cpp b/src/dbzero/core/storage/DRAM_IOStream.cpp
index 71f7cb8..617cf2d 100644
--- a/src/dbzero/core/storage/DRAM_IOStream.cpp
+++ b/src/dbzero/core/storage/DRAM_IOStream.cpp
@@ -302,33 +302,62 @@ namespace db0
     
     std::optional<StateNumType> DRAM_IOStream::beginApplyChanges(DRAM_ChangeLogStreamT &changelog_io) const
     {
-        assert(m_read_ahead_chunks.empty());
         if (m_access_type == AccessType::READ_WRITE) {
             THROWF(db0::InternalException) << "DRAM_IOStream::applyChanges require read-only stream";
         }
         
-        return fetchDRAM_IOChanges(*this, changelog_io, m_read_ahead_chunks);
+        m_read_ahead_chunks.clear();
+        m_read_ahead_complete = false;
+        auto max_state_num = fetchDRAM_IOChanges(*this, changelog_io, m_read_ahead_chunks);
+        if (!max_state_num) {
+            return std::nullopt;
+        }
+        
+        // Try catching up with the writer. If there are no further changes then the chunks which are different
+        // from what's been announced may only come from the next (i.e. pending) transaction
+        for (unsigned int i = 0; i < MAX_READ_AHEAD; ++i) {
+            if (!changelog_io.refresh()) {
+                m_read_ahead_complete = true;
+                break;
+            }
+            auto next_state_num = fetchDRAM_IOChanges(*this, changelog_io, m_read_ahead_chunks);
+            if (next_state_num) {
+                max_state_num = next_state_num;
+            }
+        }
+        return max_state_num;
     }
     
-    bool DRAM_IOStream::completeApplyChanges(StateNumType max_state_num)
+    bool DRAM_IOStream::canApplyChanges(StateNumType max_state_num) const
+    {
+        for (const auto &item: m_read_ahead_chunks) {
+            const auto &buffer = item.second;
+            const auto &header = o_dram_chunk_header::__const_ref(buffer.data() + o_block_io_chunk_header::sizeOf());
+            if (isDRAM_ChunkValid(m_dram_page_size, header, header.getData(), buffer.data() + buffer.size())) {
+                // NOTE: we allow up to +1 state number to differ (from the transaction being synced to)
+                if (header.m_state_num > max_state_num + 1) {
+                    return false;
+                }
+            } else if (!m_read_ahead_complete) {
+                // NOTE: since we don't know chunk's actual status, must assume inconsistency
+                return false;
+            }
+        }
+        return true;
+    }
+    
+    void DRAM_IOStream::completeApplyChanges(StateNumType max_state_num)
     {
-        bool is_consistent = true;
         for (const auto &item: m_read_ahead_chunks) {
             auto address = item.first;
             const auto &buffer = item.second;
             const auto &header = o_dram_chunk_header::__const_ref(buffer.data() + o_block_io_chunk_header::sizeOf());
             // NOTE: ignore invalid or incomplete DRAM chunks (too fresh to be included)
-            if (!isDRAM_ChunkValid(m_dram_page_size, header, header.getData(), buffer.data() + buffer.size())) {
-                // NOTE: since we don't know chunk's actual status, must assume inconsistency
-                is_consistent = false;
-                continue;
+            if (isDRAM_ChunkValid(m_dram_page_size, header, header.getData(), buffer.data() + buffer.size())) {
+                updateDRAMPage(address, nullptr, header, header.getData(), max_state_num);
             }
-            bool consistent_update;
-            updateDRAMPage(address, nullptr, header, header.getData(), max_state_num, &consistent_update);
-            is_consistent &= consistent_update;
         }
         m_read_ahead_chunks.clear();
-        return is_consistent;
     }
     
     void DRAM_IOStream::flush() {
diff --git a/src/dbzero/core/storage/DRAM_IOStream.hpp b/src/dbzero/core/storage/DRAM_IOStream.hpp
index 5abf37a..79168cd 100644
--- a/src/dbzero/core/storage/DRAM_IOStream.hpp
+++ b/src/dbzero/core/storage/DRAM_IOStream.hpp
@@ -100,10 +100,14 @@ DB0_PACKED_END
         // @return the latest state number of available changes
         std::optional<StateNumType> beginApplyChanges(DRAM_ChangeLogStreamT &) const;
         
+        // Check if the buffered changes represent a consistent state
+        // @param max_state_num the last known consistent state number
+        // @return false if the buffered changes are INCONSISTENT (refresh must be repeated)
+        bool canApplyChanges(StateNumType max_state_num) const;
+
         // Apply buffered changes (allowed on condition beginApplyChanges succeeded)
         // @param max_state_num the last known consistent state number
-        // @return false if the applied changes were INCONSISTENT (refresh must be repeated)
-        bool completeApplyChanges(StateNumType max_state_num);
+        void completeApplyChanges(StateNumType max_state_num);
         
         /**
          * Get the underlying DRAM pair (prefix and allocator)
@@ -180,6 +184,10 @@ DB0_PACKED_END
         std::shared_ptr<DRAM_Allocator> m_allocator;
         // chunks buffer for the beginApplyChanges / completeApplyChanges operations
         mutable std::unordered_map<std::uint64_t, std::vector<char> > m_read_ahead_chunks;
+        // flag indicating that the change-log had been exhausted after reading the buffered chunks
+        mutable bool m_read_ahead_complete = false;
+        // the maximum number of attempts to catch up with the writer
+        static constexpr unsigned int MAX_READ_AHEAD = 16;
         
         // @param max_state_num the last known consistent state number
         // @param is_consistent flag set to false if the resulting state cannot be assumed consistent
-- 
2.43.0


From 8252690e41e048ef0b4f366d274b17e01fafc20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:24 +0000
Subject: [PATCH 72/85] fix: cancelling an atomic block with a read-only prefix
 open aborted the process

---
 src/dbzero/workspace/Workspace.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/workspace/Workspace.cpp b/src/dbzero/workspace/Workspace.cpp
index c8e7128..fc6069e 100644
--- a/src/dbzero/workspace/Workspace.cpp
+++ b/src/dbzero/workspace/Workspace.cpp
@@ -688,7 +688,9 @@ namespace db0
         assert(m_atomic_context_ptr);
         // end atomic with all open fixtures
         for (auto &[uuid, fixture] : m_fixtures) {
-            fixture->cancelAtomic();
+            if (fixture->getAccessType() == AccessType::READ_WRITE) {
+                fixture->cancelAtomic();
+            }
         }
         m_atomic_context_ptr = nullptr;
     }
-- 
2.43.0


From d6aa3621029b374a7721c15a346eb08f4732891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:24 +0000
Subject: [PATCH 73/85] fix: dict pop and clear lock the fixture before
 modifying

---
 src/dbzero/bindings/python/collections/PyDict.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dbzero/bindings/python/collections/PyDict.cpp b/src/dbzero/bindings/python/collections/PyDict.cpp
index a49acf0..6188a02 100644
--- a/src/dbzero/bindings/python/collections/PyDict.cpp
+++ b/src/dbzero/bindings/python/collections/PyDict.cpp
@@ -400,6 +400,7 @@ namespace db0::python
     
     PyObject *tryDictObject_clear(DictObject *dict_obj)
     {
+        db0::FixtureLock lock(dict_obj->ext().getFixture());
         dict_obj->modifyExt().clear();
         Py_RETURN_NONE;
     }
@@ -525,6 +526,7 @@ namespace db0::python
         auto maybe_hash = getPyHashIfExists(fixture, *elem);
         if (maybe_hash) {
             if (dict_object->ext().hasItem(maybe_hash->first, *elem)) {
+                db0::FixtureLock lock(fixture);
                 return dict_object->modifyExt().pop(maybe_hash->first, *elem).steal();
             }
         }
-- 
2.43.0


From 1da10cbd21146a5c4eb7d877a4db6eddf8412281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:24 +0000
Subject: [PATCH 74/85] fix: index add and remove are refused on a read-only
 prefix

---
 src/dbzero/bindings/python/collections/PyIndex.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dbzero/bindings/python/collections/PyIndex.cpp b/src/dbzero/bindings/python/collections/PyIndex.cpp
index 0f51d46..f617c7c 100644
--- a/src/dbzero/bindings/python/collections/PyIndex.cpp
+++ b/src/dbzero/bindings/python/collections/PyIndex.cpp
@@ -101,8 +101,17 @@ namespace db0::python
         return runSafe(tryMakeIndex, self, args, nargs);        
     }
     
+    void checkIndexWritable(const IndexObject *index_obj)
+    {
+        auto fixture = index_obj->ext().getFixture();
+        if (fixture->getAccessType() != AccessType::READ_WRITE) {
+            THROWF(db0::InputException) << "Cannot modify read-only prefix: " << fixture->getPrefix().getName();
+        }
+    }
+    
     PyObject *tryIndexObject_add(IndexObject *index_obj, PyObject *const *args, Py_ssize_t nargs)
     {
+        checkIndexWritable(index_obj);
         index_obj->modifyExt().add(args[0], args[1]);
         // NOTE: we don't need to lock the fixture here, because add() is a buffered operation
         index_obj->ext().getFixture()->onUpdated();
@@ -122,6 +131,7 @@ namespace db0::python
 
     PyObject *tryIndexObject_remove(IndexObject *index_obj, PyObject *const *args, Py_ssize_t nargs)
     {
+        checkIndexWritable(index_obj);
         index_obj->modifyExt().remove(args[0], args[1]);
         // NOTE: we don't need to lock the fixture here, because remove() is a buffered operation
         index_obj->ext().getFixture()->onUpdated();
-- 
2.43.0


From 9fa70a375e1b8d166871e436e4bceda69b773443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:24 +0000
Subject: [PATCH 75/85] fix: creating an object of a new type on a read-only
 prefix raises instead of terminating the process

---
 src/dbzero/bindings/python/Memo.cpp                  | 10 ++++++++--
 src/dbzero/object_model/object/ObjectInitializer.cpp |  6 +-----
 src/dbzero/object_model/object/ObjectInitializer.hpp |  5 ++++-
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/dbzero/bindings/python/Memo.cpp b/src/dbzero/bindings/python/Memo.cpp
index 351c81f..6ca11c2 100644
--- a/src/dbzero/bindings/python/Memo.cpp
+++ b/src/dbzero/bindings/python/Memo.cpp
@@ -240,13 +240,12 @@ namespace db0::python
     initproc MemoObject_getInitFunc(MemoImplT *self);
 
     template <typename MemoImplT>
-    int PyAPI_MemoObject_init(MemoImplT *self, PyObject* args, PyObject* kwds)
+    int tryMemoObject_init(MemoImplT *self, PyObject* args, PyObject* kwds)
     {
         using Class = db0::object_model::Class;
         using TagIndex = db0::object_model::TagIndex;
         using ExtT = typename MemoImplT::ExtT;
 
-        PY_API_FUNC
         // the instance may already exist (e.g. if this is a singleton)        
         if (!self->ext().hasInstance()) {
             auto init_func = MemoObject_getInitFunc<MemoImplT>(self);
@@ -304,6 +303,13 @@ namespace db0::python
         return 0;
     }
     
+    template <typename MemoImplT>
+    int PyAPI_MemoObject_init(MemoImplT *self, PyObject* args, PyObject* kwds)
+    {
+        PY_API_FUNC
+        return runSafe<-1>(tryMemoObject_init<MemoImplT>, self, args, kwds);
+    }
+    
     template <typename MemoImplT>
     initproc MemoObject_getInitFunc(MemoImplT *self)
     {
diff --git a/src/dbzero/object_model/object/ObjectInitializer.cpp b/src/dbzero/object_model/object/ObjectInitializer.cpp
index 780c7da..9d5d472 100644
--- a/src/dbzero/object_model/object/ObjectInitializer.cpp
+++ b/src/dbzero/object_model/object/ObjectInitializer.cpp
@@ -32,10 +32,7 @@ namespace db0::object_model
     std::shared_ptr<Class> ObjectInitializer::getClassPtr() const
     {
         if (!m_class) {
-            assert(m_type_initializer);
-            assert(m_fixture);
-
-            if (!m_fixture) {
+            if (!m_fixture || !m_type_initializer) {
                 THROWF(db0::InternalException)
                     << "ObjectInitializer: Unable to initialize type because Fixture not set" << THROWF_END;
             }
@@ -187,7 +184,6 @@ namespace db0::object_model
     
     void ObjectInitializerManager::closeAt(std::uint32_t loc)
     {
-        auto result = m_initializers[loc]->getClassPtr();
         m_initializers[loc]->reset();
         // move to inactive slot
         std::swap(m_initializers[loc], m_initializers[m_active_count - 1]);
diff --git a/src/dbzero/object_model/object/ObjectInitializer.hpp b/src/dbzero/object_model/object/ObjectInitializer.hpp
index 8384037..33fbdf0 100644
--- a/src/dbzero/object_model/object/ObjectInitializer.hpp
+++ b/src/dbzero/object_model/object/ObjectInitializer.hpp
@@ -171,6 +171,8 @@ namespace db0::object_model
         
         Class &getClass() const;
         
+        // get the class if already resolved (i.e. not deferred)
+        std::shared_ptr<Class> tryGetClassPtr() const { return m_class; }
         std::shared_ptr<Class> getClassPtr() const;
 
         inline std::pair<std::uint32_t, std::uint32_t> getRefCounts() const {
@@ -235,7 +237,8 @@ namespace db0::object_model
     {        
         for (auto i = 0u; i < m_active_count; ++i) {
             if (m_initializers[i]->operator==(object)) {
-                auto result = m_initializers[i]->getClassPtr();
+                // NOTE: deferred types are not resolved at this point (null returned)
+                auto result = m_initializers[i]->tryGetClassPtr();
                 closeAt(i);
                 return result;
             }
-- 
2.43.0


From b8df955773d3e666d6112d483d2926832726e801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:25 +0000
Subject: [PATCH 76/85] fix: a write to a read-only prefix or snapshot raises
 instead of aborting the process

---
 src/dbzero/core/memory/PrefixImpl.cpp     | 17 ++++++++++++-----
 src/dbzero/core/memory/PrefixImpl.hpp     |  3 +++
 src/dbzero/core/memory/PrefixViewImpl.cpp |  4 +++-
 src/dbzero/core/vspace/v_ptr.hpp          | 12 +++++++++---
 4 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/dbzero/core/memory/PrefixImpl.cpp b/src/dbzero/core/memory/PrefixImpl.cpp
index 60eb9de..05d1a8a 100644
--- a/src/dbzero/core/memory/PrefixImpl.cpp
+++ b/src/dbzero/core/memory/PrefixImpl.cpp
@@ -108,7 +108,7 @@ namespace db0
         assert(read_state_num > 0);
         assert(access_mode[AccessOptions::read] && "Unable to create boundary range");
         if (access_mode[AccessOptions::write]) {
-            assert(getAccessType() == AccessType::READ_WRITE);
+            assureWritable();
             // read / write access
             if (read_state_num != state_num) {
                 // possibly create CoWs of lhs / rhs
@@ -126,6 +126,13 @@ namespace db0
         return lock;
     }
     
+    void PrefixImpl::assureWritable() const
+    {
+        if (getAccessType() != AccessType::READ_WRITE) {
+            THROWF(db0::InputException) << "Cannot modify read-only prefix: " << getName();
+        }
+    }
+    
     std::shared_ptr<DP_Lock> PrefixImpl::mapPage(std::uint64_t page_num, StateNumType state_num,
         FlagSet<AccessOptions> access_mode)
     {
@@ -133,7 +140,7 @@ namespace db0
         auto lock = m_cache.findPage(page_num, state_num, access_mode, read_state_num);
         assert(!lock || read_state_num > 0);
         if (access_mode[AccessOptions::write] && !access_mode[AccessOptions::read]) {
-            assert(getAccessType() == AccessType::READ_WRITE);
+            assureWritable();
             // create/write-only access
             if (!lock || read_state_num != state_num) {
                 if (!lock && m_access_type == AccessType::READ_WRITE) {
@@ -166,7 +173,7 @@ namespace db0
                 lock = m_cache.createPage(page_num, mutation_id, 0, access_mode);
             }
         } else {
-            assert(getAccessType() == AccessType::READ_WRITE);
+            assureWritable();
             // read / write access
             if (lock) {
                 if (read_state_num != state_num) {
@@ -215,7 +222,7 @@ namespace db0
         assert(!lock || read_state_num > 0);
         
         if (access_mode[AccessOptions::write] && !access_mode[AccessOptions::read]) {
-            assert(getAccessType() == AccessType::READ_WRITE);
+            assureWritable();
             // create/write-only access
             if (!lock || read_state_num != state_num) {
                 std::shared_ptr<DP_Lock> res_lock;
@@ -248,7 +255,7 @@ namespace db0
                 lock = m_cache.createRange(first_page, size, mutation_id, 0, access_mode, res_dp);
             }
         } else {
-            assert(getAccessType() == AccessType::READ_WRITE);
+            assureWritable();
             // read/write access
             if (lock) {
                 if (read_state_num != state_num) {
diff --git a/src/dbzero/core/memory/PrefixImpl.hpp b/src/dbzero/core/memory/PrefixImpl.hpp
index e191b46..3361baf 100644
--- a/src/dbzero/core/memory/PrefixImpl.hpp
+++ b/src/dbzero/core/memory/PrefixImpl.hpp
@@ -102,6 +102,9 @@ namespace db0
         // flag indicating atomic operation in progress
         bool m_atomic = false;
         
+        // throws if the prefix is read-only
+        void assureWritable() const;
+
         std::shared_ptr<DP_Lock> mapPage(std::uint64_t page_num, StateNumType state_num, FlagSet<AccessOptions>);
         std::shared_ptr<BoundaryLock> mapBoundaryRange(std::uint64_t page_num, std::uint64_t address,
             std::size_t size, StateNumType state_num, FlagSet<AccessOptions>);
diff --git a/src/dbzero/core/memory/PrefixViewImpl.cpp b/src/dbzero/core/memory/PrefixViewImpl.cpp
index 858e91a..d9d1bcb 100644
--- a/src/dbzero/core/memory/PrefixViewImpl.cpp
+++ b/src/dbzero/core/memory/PrefixViewImpl.cpp
@@ -24,7 +24,9 @@ namespace db0
         FlagSet<AccessOptions> access_mode)
     {
         // read-only access is allowed
-        assert(!access_mode[AccessOptions::write]);
+        if (access_mode[AccessOptions::write]) {
+            THROWF(db0::InputException) << "Cannot modify read-only prefix: " << getName();
+        }
         
         auto first_page = address >> m_shift;
         auto end_page = ((address + size - 1) >> m_shift) + 1;
diff --git a/src/dbzero/core/vspace/v_ptr.hpp b/src/dbzero/core/vspace/v_ptr.hpp
index c616410..c662ce8 100644
--- a/src/dbzero/core/vspace/v_ptr.hpp
+++ b/src/dbzero/core/vspace/v_ptr.hpp
@@ -76,9 +76,15 @@ namespace db0
                     // lock for +write
                     // note that lock is getting updated, possibly copy-on-write is being performed
                     // NOTE: must extract physical address for mapRange                    
-                    m_mem_lock = m_memspace_ptr->getPrefix().mapRange(
-                        m_address.getOffset(), this->getSize(), m_access_mode | AccessOptions::write | AccessOptions::read
-                    );
+                    try {
+                        m_mem_lock = m_memspace_ptr->getPrefix().mapRange(
+                            m_address.getOffset(), this->getSize(), m_access_mode | AccessOptions::write | AccessOptions::read
+                        );
+                    } catch (...) {
+                        // e.g. read-only prefix, the released range must be mapped again by the next read
+                        atomicResetFlags(m_resource_flags, db0::RESOURCE_AVAILABLE_FOR_READ);
+                        throw;
+                    }
                     // by calling MemLock::modify we mark the object's associated range as modified
                     m_mem_lock.modify();
                     // collect as a modified instance for commit speedup
-- 
2.43.0


From e5fd62a6e786668fb1bfa3761b0635e30c2ccdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:25 +0000
Subject: [PATCH 77/85] fix: take the file size after the lock was acquired (a
 waiting writer overwrote its predecessor's pages)

---
 src/dbzero/core/storage/CFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dbzero/core/storage/CFile.cpp b/src/dbzero/core/storage/CFile.cpp
index 0914191..4bd30b4 100644
--- a/src/dbzero/core/storage/CFile.cpp
+++ b/src/dbzero/core/storage/CFile.cpp
@@ -85,6 +85,8 @@ namespace db0
         if (access_type == AccessType::READ_WRITE && lock_flags.m_no_lock == false) {
             std::string lock_path = m_path + ".lock";
             m_lock = std::make_unique<InterProcessLock>(lock_path.c_str(), lock_flags);
+            // NOTE: the file might have been extended by its previous owner before the lock was acquired
+            m_file_size = getFileSize(m_file, m_file_pos);
         }
     }
     
-- 
2.43.0


From c8e4600cae02602acf33e322fb27a7105b43ff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:09 +0000
Subject: [PATCH 78/85] fix: weak references resolve to another object reusing
 the storage

---
 src/dbzero/object_model/ObjectBase.hpp   | 2 +-
 src/dbzero/object_model/value/Member.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbzero/object_model/ObjectBase.hpp b/src/dbzero/object_model/ObjectBase.hpp
index d33d117..282dc8c 100644
--- a/src/dbzero/object_model/ObjectBase.hpp
+++ b/src/dbzero/object_model/ObjectBase.hpp
@@ -186,7 +186,7 @@ namespace db0
             if (instance_id || check_has_refs) {
                 // NOTE: here we use trusted size_of retrieved from the allocator
                 auto stem = BaseT(db0::tag_verified(), fixture->myPtr(address), size_of);
-                if (instance_id && stem->m_header.m_instance_id == instance_id) {
+                if (instance_id && stem->m_header.m_instance_id != instance_id) {
                     return false;
                 }
                 if (check_has_refs && !stem->hasRefs()) {
diff --git a/src/dbzero/object_model/value/Member.cpp b/src/dbzero/object_model/value/Member.cpp
index edacf52..46d865b 100644
--- a/src/dbzero/object_model/value/Member.cpp
+++ b/src/dbzero/object_model/value/Member.cpp
@@ -615,8 +615,8 @@ namespace db0::object_model
         db0::swine_ptr<Fixture> &fixture, Value value, unsigned int, AccessFlags)
     {
         auto address = value.asUniqueAddress();
-        // NOTE: instance_id not validated since it's a trusted reference
-        if (PyToolkit::isExistingObject(fixture, address.getAddress())) {
+        // NOTE: instance_id needs to be validated since the address might've been reused after the object expired
+        if (PyToolkit::isExistingObject(fixture, address.getAddress(), address.getInstanceId())) {
             return PyToolkit::unloadObject(fixture, address);
         } else {
             // NOTE: expired objects are unloaded as MemoExpiredRef (placeholders)
@@ -631,7 +631,7 @@ namespace db0::object_model
         LongWeakRef weak_ref(fixture, value.asAddress());
         auto other_fixture = fixture->getWorkspace().getFixture(weak_ref->m_fixture_uuid);
         auto address = weak_ref->m_address;
-        if (PyToolkit::isExistingObject(other_fixture, address.getAddress())) {
+        if (PyToolkit::isExistingObject(other_fixture, address.getAddress(), address.getInstanceId())) {
             // unload object from a foreign prefix
             return PyToolkit::unloadObject(other_fixture, address);
         } else {
-- 
2.43.0


From 4de9b0dc6414f58cd2c80577e0d1a3cb9ecd43b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:10 +0000
Subject: [PATCH 79/85] fix: expired references are cached under an address
 other objects may reuse

---
 src/dbzero/bindings/python/MemoExpiredRef.cpp |  2 +-
 src/dbzero/bindings/python/PyToolkit.cpp      | 13 ++-----------
 src/dbzero/bindings/python/dbzero.cpp         |  2 ++
 3 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/dbzero/bindings/python/MemoExpiredRef.cpp b/src/dbzero/bindings/python/MemoExpiredRef.cpp
index c9d0360..66fc387 100644
--- a/src/dbzero/bindings/python/MemoExpiredRef.cpp
+++ b/src/dbzero/bindings/python/MemoExpiredRef.cpp
@@ -65,7 +65,7 @@ namespace db0::python
         }
         
         py_expired_ref->init(fixture_uuid, address);        
-        return reinterpret_cast<PyObject*>(py_expired_ref);
+        return Py_OWN(reinterpret_cast<PyObject*>(py_expired_ref));
     }
     
 }
diff --git a/src/dbzero/bindings/python/PyToolkit.cpp b/src/dbzero/bindings/python/PyToolkit.cpp
index 3d341d2..0c89cde 100644
--- a/src/dbzero/bindings/python/PyToolkit.cpp
+++ b/src/dbzero/bindings/python/PyToolkit.cpp
@@ -370,17 +370,8 @@ namespace db0::python
     PyToolkit::ObjectSharedPtr PyToolkit::unloadExpiredRef(db0::swine_ptr<Fixture> &fixture, Address addr,
         std::uint64_t obj_fixture_uuid, UniqueAddress obj_address)
     {
-        // try unloading from cache first
-        auto &lang_cache = fixture->getLangCache();
-        auto obj_ptr = tryUnloadObjectFromCache(lang_cache, addr);
-        
-        if (obj_ptr.get()) {
-            return obj_ptr;
-        }
-        
-        obj_ptr = MemoExpiredRef_new(obj_fixture_uuid, obj_address);
-        lang_cache.add(addr, obj_ptr.get());
-        return obj_ptr;
+        // NOTE: expired refs are not cached since their address might be reused by other objects
+        return MemoExpiredRef_new(obj_fixture_uuid, obj_address);
     }
     
     PyToolkit::ObjectSharedPtr PyToolkit::unloadExpiredRef(db0::swine_ptr<Fixture> &fixture, const LongWeakRef &weak_ref) {
diff --git a/src/dbzero/bindings/python/dbzero.cpp b/src/dbzero/bindings/python/dbzero.cpp
index 3606e68..4a21e67 100644
--- a/src/dbzero/bindings/python/dbzero.cpp
+++ b/src/dbzero/bindings/python/dbzero.cpp
@@ -12,6 +12,7 @@
 #include "PyAtomic.hpp"
 #include "PyLocked.hpp"
 #include "PyWeakProxy.hpp"
+#include "MemoExpiredRef.hpp"
 #include <dbzero/bindings/python/types/PyObjectId.hpp>
 #include <dbzero/bindings/python/collections/PyList.hpp>
 #include <dbzero/bindings/python/collections/PyByteArray.hpp>
@@ -214,6 +215,7 @@ PyMODINIT_FUNC PyInit_dbzero(void)
         &py::PyTagType,
         &py::PyLockedType,
         &py::PyWeakProxyType,
+        &py::MemoExpiredRefType,
     };
     
     // register all types
-- 
2.43.0


From bebb7478a88e66e335185132db8660baa8aba249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:10 +0000
Subject: [PATCH 80/85] fix: collections moved to another prefix keep writing
 to their previous index

---
 src/dbzero/object_model/ObjectBase.hpp  | 2 ++
 src/dbzero/object_model/dict/Dict.cpp   | 3 +++
 src/dbzero/object_model/set/Set.cpp     | 3 +++
 src/dbzero/object_model/set/WeakSet.cpp | 3 +++
 4 files changed, 11 insertions(+)

diff --git a/src/dbzero/object_model/ObjectBase.hpp b/src/dbzero/object_model/ObjectBase.hpp
index 282dc8c..76b3839 100644
--- a/src/dbzero/object_model/ObjectBase.hpp
+++ b/src/dbzero/object_model/ObjectBase.hpp
@@ -309,6 +309,8 @@ namespace db0
         
         this->destroy();
         *this = std::move(new_instance);
+        // NOTE: the new instance has been registered as modified under a different pointer
+        fixture->collectModified(this);
     }
     
 }
\ No newline at end of file
diff --git a/src/dbzero/object_model/dict/Dict.cpp b/src/dbzero/object_model/dict/Dict.cpp
index 8ac8253..2faa99f 100644
--- a/src/dbzero/object_model/dict/Dict.cpp
+++ b/src/dbzero/object_model/dict/Dict.cpp
@@ -261,6 +261,9 @@ namespace db0::object_model
         }
         assert(hasInstance());
         super_t::moveTo(fixture);
+        // switch to the (empty) index created with the new instance
+        m_index.destroy();
+        m_index = db0::v_bindex<dict_item>(myPtr((*this)->m_index_ptr));
     }
 
     std::size_t Dict::size() const {
diff --git a/src/dbzero/object_model/set/Set.cpp b/src/dbzero/object_model/set/Set.cpp
index 2e8357d..1efee62 100644
--- a/src/dbzero/object_model/set/Set.cpp
+++ b/src/dbzero/object_model/set/Set.cpp
@@ -285,6 +285,9 @@ namespace db0::object_model
             THROWF(db0::InputException) << "Set with items cannot be moved to another fixture";
         }
         super_t::moveTo(fixture);
+        // switch to the (empty) index created with the new instance
+        m_index.destroy();
+        m_index = db0::v_bindex<set_item>(myPtr((*this)->m_index_ptr));
     }
     
     std::size_t Set::size() const { 
diff --git a/src/dbzero/object_model/set/WeakSet.cpp b/src/dbzero/object_model/set/WeakSet.cpp
index 5502881..fc490a0 100644
--- a/src/dbzero/object_model/set/WeakSet.cpp
+++ b/src/dbzero/object_model/set/WeakSet.cpp
@@ -250,6 +250,9 @@ namespace db0::object_model
             THROWF(db0::InputException) << "WeakSet with items cannot be moved to another fixture";
         }
         super_t::moveTo(fixture);
+        // switch to the (empty) index created with the new instance
+        m_index.destroy();
+        m_index = db0::v_bindex<set_item>(myPtr((*this)->m_index_ptr));
     }
 
     std::size_t WeakSet::size() const
-- 
2.43.0


From a1814e6192d40e2a5b68184b529def6b259a7135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:10 +0000
Subject: [PATCH 81/85] fix: index with items moved to another prefix reads
 unrelated objects

---
 src/dbzero/object_model/index/Index.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dbzero/object_model/index/Index.cpp b/src/dbzero/object_model/index/Index.cpp
index c72146a..f568317 100644
--- a/src/dbzero/object_model/index/Index.cpp
+++ b/src/dbzero/object_model/index/Index.cpp
@@ -566,10 +566,15 @@ namespace db0::object_model
     
     void Index::moveTo(db0::swine_ptr<Fixture> &fixture)
     {        
-        m_mutation_log = fixture->addMutationHandler();
         assert(hasInstance());
         this->_flush();
+        if (this->size() > 0) {
+            THROWF(db0::InputException) << "Index with items cannot be moved to another fixture";
+        }
+        m_mutation_log = fixture->addMutationHandler();
         super_t::moveTo(fixture);
+        // the range tree will be opened with the new instance
+        m_index = nullptr;
     }
     
     void Index::commit() const
-- 
2.43.0


From e365bd04e286e26939d88d520cf5973cbf773774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:10 +0000
Subject: [PATCH 82/85] fix: tuple with items moved to another prefix copies
 uninitialized members

---
 src/dbzero/object_model/tuple/Tuple.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dbzero/object_model/tuple/Tuple.cpp b/src/dbzero/object_model/tuple/Tuple.cpp
index 0fb3d6f..bceca23 100644
--- a/src/dbzero/object_model/tuple/Tuple.cpp
+++ b/src/dbzero/object_model/tuple/Tuple.cpp
@@ -51,9 +51,8 @@ namespace db0::object_model
     Tuple::Tuple(tag_no_gc, db0::swine_ptr<Fixture> &fixture, const Tuple &other)
         : super_t(tag_no_gc(), fixture, other.size())
     {
-        for (std::size_t i = 0; i < other.size(); i++) {
-            auto [storage_class, value] = getData()->items()[i];
-            modify().items()[i] = { storage_class, value };
+        if (other.size() > 0) {
+            THROWF(db0::InputException) << "Tuple with items cannot be moved to another fixture";
         }
     }
     
-- 
2.43.0


From fe6d67bd123fbbf39240e960e8a56d015c177f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:24 +0000
Subject: [PATCH 83/85] fix: tuples of simple values are moved to another
 prefix with their items

---
 src/dbzero/object_model/tuple/Tuple.cpp | 34 +++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/dbzero/object_model/tuple/Tuple.cpp b/src/dbzero/object_model/tuple/Tuple.cpp
index bceca23..b3d00d7 100644
--- a/src/dbzero/object_model/tuple/Tuple.cpp
+++ b/src/dbzero/object_model/tuple/Tuple.cpp
@@ -51,8 +51,38 @@ namespace db0::object_model
     Tuple::Tuple(tag_no_gc, db0::swine_ptr<Fixture> &fixture, const Tuple &other)
         : super_t(tag_no_gc(), fixture, other.size())
     {
-        if (other.size() > 0) {
-            THROWF(db0::InputException) << "Tuple with items cannot be moved to another fixture";
+        auto other_fixture = other.getFixture();
+        for (std::size_t i = 0; i < other.size(); i++) {
+            auto [storage_class, value] = other.getData()->items()[i];
+            switch (storage_class) {
+                case StorageClass::NONE:
+                case StorageClass::INT64:
+                case StorageClass::FP_NUMERIC64:
+                case StorageClass::DATE:
+                case StorageClass::DATETIME:
+                case StorageClass::DATETIME_TZ:
+                case StorageClass::TIME:
+                case StorageClass::TIME_TZ:
+                case StorageClass::DECIMAL:
+                case StorageClass::STR64:
+                case StorageClass::BOOLEAN:
+                case StorageClass::PACK_2:
+                    modify().items()[i] = { storage_class, value };
+                    break;
+
+                // these need to be re-created
+                case StorageClass::STRING_REF:
+                case StorageClass::DB0_BYTES: {
+                    auto lang_value = unloadMember<LangToolkit>(other_fixture, storage_class, value, 0, other.getMemberFlags());
+                    auto type_id = LangToolkit::getTypeManager().getTypeId(lang_value.get());
+                    modify().items()[i] = createTupleItem<LangToolkit>(
+                        fixture, type_id, lang_value.get(), storage_class, this->getMemberFlags());
+                    break;
+                }
+
+                default:
+                    THROWF(db0::InputException) << "Tuple with references cannot be moved to another fixture";
+            }
         }
     }
     
-- 
2.43.0


From 92716fe304ae5e1da717e094b9ceb0ebcc3353d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:41 +0000
Subject: [PATCH 84/85] fix: fetching a singleton by its class made a second
 instance of it: stale reads and double free

---
 src/dbzero/bindings/python/PyInternalAPI.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dbzero/bindings/python/PyInternalAPI.cpp b/src/dbzero/bindings/python/PyInternalAPI.cpp
index 3d21a1a..3aa16ca 100644
--- a/src/dbzero/bindings/python/PyInternalAPI.cpp
+++ b/src/dbzero/bindings/python/PyInternalAPI.cpp
@@ -244,8 +244,17 @@ namespace db0::python
             THROWF(db0::InputException) << "Singleton instance does not exist";
         }
 
+        // try unloading from cache first (there may only be one instance of the object)
+        auto addr = type->getSingletonAddress();
+        auto &lang_cache = fixture->getLangCache();
+        auto obj_ptr = tryUnloadObjectFromCache(lang_cache, addr);
+        if (obj_ptr.get()) {
+            return obj_ptr.steal();
+        }
+
         MemoObject *memo_obj = reinterpret_cast<MemoObject*>(py_type->tp_alloc(py_type, 0));
         type->unloadSingleton(&memo_obj->modifyExt());
+        lang_cache.add(addr, memo_obj);
         return memo_obj;
     }
     
-- 
2.43.0


From cfd49fecc27bd5c02e9ca72612232d95b279fe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:42 +0000
Subject: [PATCH 85/85] fix: a reader opening during a commit was refused as
 inconsistent; copying during a commit mapped pages by an outdated ext-space

---
 src/dbzero/core/storage/BDevStorage.cpp | 45 +++++++++++++++++++++++++
 src/dbzero/core/storage/BDevStorage.hpp |  3 ++
 src/dbzero/core/storage/Page_IO.cpp     |  4 +++
 3 files changed, 52 insertions(+)

diff --git a/src/dbzero/core/storage/BDevStorage.cpp b/src/dbzero/core/storage/BDevStorage.cpp
index 06c1a76..379031e 100644
--- a/src/dbzero/core/storage/BDevStorage.cpp
+++ b/src/dbzero/core/storage/BDevStorage.cpp
@@ -91,6 +91,14 @@ namespace db0
             auto dp_state_num = chunk_ptr->m_state_num;
             m_dp_changelog_state_num = dp_state_num;
             auto dram_state_num = m_sparse_pair.getMaxStateNum();            
+            if (dram_state_num > dp_state_num && m_access_type == AccessType::READ_ONLY) {
+                // NOTE: the changelog (always written before DRAM) might've been extended by other process since it was opened
+                m_dp_changelog_io.refresh();
+                while ((chunk_ptr = m_dp_changelog_io.readChangeLogChunk())) {
+                    dp_state_num = chunk_ptr->m_state_num;
+                }
+                m_dp_changelog_state_num = dp_state_num;
+            }
             if (dram_state_num > dp_state_num) {
                 THROWF(db0::IOException) << "Inconsistent state: DRAM state number " << dram_state_num
                     << " exceeds DP changelog state number " << dp_state_num;
@@ -921,6 +929,38 @@ namespace db0
         m_file.fsync();
     }
     
+    void BDevStorage::refreshExt()
+    {
+        assert(!!m_ext_space);
+        assert(m_ext_dram_changelog_io && m_ext_dram_io);
+        bool pending = false;
+        for (unsigned int failed_count = 0;;) {
+            auto stream_pos = m_ext_dram_changelog_io->getStreamPos();
+            try {
+                if (!pending && !m_ext_dram_changelog_io->refresh()) {
+                    break;
+                }
+                auto state_num = m_ext_dram_io->beginApplyChanges(*m_ext_dram_changelog_io);
+                if (!state_num) {
+                    break;
+                }
+                if (!m_ext_dram_io->canApplyChanges(*state_num)) {
+                    THROWF(db0::IOException) << "BDevStorage::refreshExt: inconsistent state, must be repeated";
+                }
+                m_ext_dram_io->completeApplyChanges(*state_num);
+                m_ext_space.refresh();
+                pending = false;
+            } catch (db0::IOException &) {
+                m_ext_dram_changelog_io->setStreamPos(stream_pos);
+                pending = true;
+                if (++failed_count == MAX_REFRESH_ATTEMPTS) {
+                    throw;
+                }
+                std::this_thread::sleep_for(std::chrono::milliseconds(1));
+            }
+        }
+    }
+    
     void BDevStorage::copyTo(BDevStorage &out)
     {
         if (!out.m_ext_space) {
@@ -947,6 +987,11 @@ namespace db0
                 << "BDevStorage::copyTo: inconsistent max_state_num in DP changelog: "
                 << (StateNumType)(dp_header->m_state_num) << " != " << max_state_num;
         }
+        if (!!m_ext_space && m_access_type == AccessType::READ_ONLY) {
+            // NOTE: other process might've extended the ext-space since it was opened, it must cover the copied state
+            refreshExt();
+        }
+        
         std::uint64_t end_page_num = dp_header->m_end_storage_page_num;
         // NOTE: end_page_num may be relative, need to translate to absolute
         if (!!m_ext_space) {
diff --git a/src/dbzero/core/storage/BDevStorage.hpp b/src/dbzero/core/storage/BDevStorage.hpp
index 4e5a36e..d09c93f 100644
--- a/src/dbzero/core/storage/BDevStorage.hpp
+++ b/src/dbzero/core/storage/BDevStorage.hpp
@@ -202,6 +202,9 @@ DB0_PACKED_END
         static constexpr unsigned int MAX_REFRESH_ATTEMPTS = 10;
         mutable std::shared_mutex m_mutex;
 
+        // Synchronize the ext-space (read-only) with the most recent changes
+        void refreshExt();
+
         // Report all pages updated after last_state_num, up to max_state_num (inclusive)
         // throws IOException (no updates get reported) if not available yet
         void fetchPageUpdates(StateNumType last_state_num, StateNumType max_state_num,
diff --git a/src/dbzero/core/storage/Page_IO.cpp b/src/dbzero/core/storage/Page_IO.cpp
index 0ef3b50..073b957 100644
--- a/src/dbzero/core/storage/Page_IO.cpp
+++ b/src/dbzero/core/storage/Page_IO.cpp
@@ -222,6 +222,10 @@ namespace db0
         }
 
         start_page_num = m_current_page_num;
+        if (m_current_page_num >= m_end_page_num) {
+            // NOTE: the current step might be located beyond the requested end
+            return 0;
+        }
         auto to_read = std::min(std::uint64_t(max_pages), m_end_page_num - m_current_page_num);
         // align with the step size (if defined)
         if (!!m_step_it) {
-- 
2.43.0

