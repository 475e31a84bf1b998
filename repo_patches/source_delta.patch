From baafbaf9269f944dad198155c6d4a5f891629121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:19 +0000
Subject: [PATCH 01/43] fix: a leaf with no elements occupies no bytes,
 whatever its stride

---
 src/libs/conduit/conduit_data_type.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_data_type.cpp b/src/libs/conduit/conduit_data_type.cpp
index af6a717..0f636f3 100644
--- a/src/libs/conduit/conduit_data_type.cpp
+++ b/src/libs/conduit/conduit_data_type.cpp
@@ -641,6 +641,11 @@ conduit::index_t
 DataType::strided_bytes() const
 {
     // this is the memory extent excluding the offset
+    // (no elements occupy no memory, whatever the stride)
+    if(m_num_ele < 1)
+    {
+        return 0;
+    }
     return m_stride * (m_num_ele -1) + m_ele_bytes;
 }
 
@@ -656,7 +661,7 @@ DataType::bytes_compact() const
 conduit::index_t
 DataType::spanned_bytes() const
 {
-    return m_offset + m_stride * (m_num_ele -1) + m_ele_bytes;
+    return m_offset + strided_bytes();
 }
 
 //---------------------------------------------------------------------------//
-- 
2.43.0


From ed6e94feb10d3b4ca613e55e9adf19a30244c2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:20 +0000
Subject: [PATCH 02/43] fix: Node::serialize places each child after the
 compact bytes of the previous one

---
 src/libs/conduit/conduit_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index d166625..067016c 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17613,7 +17613,7 @@ Node::serialize(uint8 *data,index_t curr_offset) const
         for(itr = m_children.begin(); itr < m_children.end(); ++itr)
         {
             (*itr)->serialize(&data[0],curr_offset);
-            curr_offset+=(*itr)->total_strided_bytes();
+            curr_offset+=(*itr)->total_bytes_compact();
         }
     }
     else
-- 
2.43.0


From ee6ce0a75c34ed90067419b996928f288204856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:20 +0000
Subject: [PATCH 03/43] fix: Node::swap keeps schemas of siblings and parents
 of children in step

---
 src/libs/conduit/conduit_node.cpp | 41 ++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 067016c..0f9a98d 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -8717,40 +8717,47 @@ Node::swap(Node &n_b)
     Schema *schema_a = m_schema;
     Schema *schema_b = n_b.m_schema;
 
+    // note: both indices are found before either parent schema is changed,
+    // the nodes may share the same parent
+    index_t idx_a = -1;
+    index_t idx_b = -1;
+
     // check if node a has a parent Node
     if(this->parent() != NULL)
     {
         // find index in parent schema
-        Schema *a_parent_schema = schema_a->parent();
-        index_t idx = a_parent_schema->child_index(schema_a);
-        // as we swap, we need to make sure the parent schema is updated
-        if(idx < 0)
+        idx_a = schema_a->parent()->child_index(schema_a);
+        if(idx_a < 0)
         {
             // error
             CONDUIT_ERROR("Node::swap internal error,"
                          "failed to find schema child index in this Node's parent.");
         }
-
-        a_parent_schema->children()[idx] = schema_b;
     }
 
     // check if node b has a parent Node
     if(n_b.parent() != NULL)
     {
         // find index in parent schema
-        Schema *b_parent_schema = schema_b->parent();
-        index_t idx = b_parent_schema->child_index(schema_b);
-
-        // as we swap, we need to make sure the parent schema is updated
-        if(idx < 0)
+        idx_b = schema_b->parent()->child_index(schema_b);
+        if(idx_b < 0)
         {
             // error
             CONDUIT_ERROR("Node::swap internal error,"
                          "failed to find schema child index in passed Node's parent.");
 
         }
+    }
 
-        b_parent_schema->children()[idx] = schema_a;
+    // as we swap, we need to make sure the parent schemas are updated
+    if(idx_a >= 0)
+    {
+        schema_a->parent()->children()[idx_a] = schema_b;
+    }
+
+    if(idx_b >= 0)
+    {
+        schema_b->parent()->children()[idx_b] = schema_a;
     }
 
     // swap-o-rama
@@ -8775,6 +8782,16 @@ Node::swap(Node &n_b)
     // this should be an efficient O(1)
     std::swap(m_children,n_b.m_children);
 
+    // the children now live under a different node
+    for(size_t i=0; i < m_children.size(); i++)
+    {
+        m_children[i]->set_parent(this);
+    }
+
+    for(size_t i=0; i < n_b.m_children.size(); i++)
+    {
+        n_b.m_children[i]->set_parent(&n_b);
+    }
 }
 
 
-- 
2.43.0


From 79b15e54589b271903ab3691cab9944e348ebf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:20 +0000
Subject: [PATCH 04/43] fix: Schema::equals and compatible match children by
 name, not by path

---
 src/libs/conduit/conduit_schema.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index e7c7bfe..87b5d89 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -322,7 +322,7 @@ Schema::compatible(const Schema &s) const
             itr++)
         {
             // make sure we actually have the path
-            if(has_path(itr->first))
+            if(has_child(itr->first))
             {
                 // use index to fetch the child from the other schema
                 const Schema &s_chld = s.child(itr->second);
@@ -379,7 +379,7 @@ Schema::equals(const Schema &s) const
             itr != s.object_map().end() && res;
             itr++)
         {
-            if(has_path(itr->first))
+            if(has_child(itr->first))
             {
                 size_t s_idx = (size_t) itr->second;
                 res = s.children()[s_idx]->equals(child(itr->first));
@@ -394,7 +394,7 @@ Schema::equals(const Schema &s) const
             itr != object_map().end() && res;
             itr++)
         {
-            if(s.has_path(itr->first))
+            if(s.has_child(itr->first))
             {
                 size_t idx = (size_t) itr->second;
                 res = children()[idx]->equals(s.child(itr->first));
-- 
2.43.0


From 0f555910499400923ad1dd4041c2628d02b69e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:20 +0000
Subject: [PATCH 05/43] fix: Schema::fetch_existing looks for the parent before
 looking for a child named ".."

---
 src/libs/conduit/conduit_schema.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index 87b5d89..42a48c2 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -917,8 +917,6 @@ Schema::fetch_existing(const std::string &path)
     std::string p_next;
     utils::split_path(path,p_curr,p_next);
 
-    size_t idx = (size_t) child_index(p_curr);
-    
     // check for parent
     if(p_curr == "..")
     {
@@ -931,7 +929,9 @@ Schema::fetch_existing(const std::string &path)
             return m_parent->fetch_existing(p_next);
         }
     }
-    
+
+    size_t idx = (size_t) child_index(p_curr);
+
     if(p_next.empty())
     {
         return *children()[idx];
-- 
2.43.0


From 1bfaff4e6c9c3ca6df57bb5f55e1cb1fd327d7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:20 +0000
Subject: [PATCH 06/43] fix: Schema::set(dtype_id) prepares the children of an
 object or list

---
 src/libs/conduit/conduit_schema.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index 42a48c2..13dce2e 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -151,6 +151,11 @@ void
 Schema::set(index_t dtype_id)
 {
     reset();
+    if (dtype_id == DataType::OBJECT_ID) {
+        init_object();
+    } else if (dtype_id == DataType::LIST_ID) {
+        init_list();
+    }
     m_dtype.reset();
     m_dtype.set_id(dtype_id);
 }
-- 
2.43.0


From f8a1eb3b71b210d105938106336a3f181766ebda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:20 +0000
Subject: [PATCH 07/43] fix: Node::remove refuses an index that is not a child

---
 src/libs/conduit/conduit_node.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 0f9a98d..c280043 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14668,7 +14668,8 @@ Node::remove(index_t idx)
     // to cleanup
 
     // remove the proper list entry
-    delete m_children[(size_t)idx];
+    // (child_ptr errors if the index is not valid)
+    delete child_ptr(idx);
     m_schema->remove(idx);
     m_children.erase(m_children.begin() + (size_t)idx);
 }
-- 
2.43.0


From 1953287858b41402c2820c0c254386ec03e1911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:56 +0000
Subject: [PATCH 08/43] fix: Node::add_child on a list drops the list entries
 with their schemas

---
 src/libs/conduit/conduit_node.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index c280043..d2cffd5 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14285,6 +14285,12 @@ Node::add_child(const std::string &name)
         return child(name);
     }
 
+    // add_child forces OBJECT_ID
+    if(!dtype().is_object())
+    {
+        init(DataType::object());
+    }
+
     Schema &child_schema = m_schema->add_child(name);
     Schema *child_ptr = &child_schema;
     Node *child_node = new Node();
-- 
2.43.0


From aa380cbf4cd5bc41dc9293989a0e410f7d980034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:11 +0000
Subject: [PATCH 09/43] fix: Node::contiguous_with keeps the running address
 across nodes without data

---
 src/libs/conduit/conduit_node.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index d2cffd5..71f1c41 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17736,6 +17736,9 @@ Node::contiguous_with(uint8 *start_addy, uint8 *&end_addy) const
 {
     bool res = true;
 
+    // a node without data ends where it starts
+    end_addy = start_addy;
+
     index_t dtype_id = dtype().id();
 
     if(dtype_id == DataType::OBJECT_ID ||
-- 
2.43.0


From ffa004be113b4a9826e717b377351d594d6d47d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:57 +0000
Subject: [PATCH 10/43] fix: DataArray::diff and diff_compatible report a NaN
 against a number

---
 src/libs/conduit/conduit_data_array.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_data_array.cpp b/src/libs/conduit/conduit_data_array.cpp
index ababf48..c45f058 100644
--- a/src/libs/conduit/conduit_data_array.cpp
+++ b/src/libs/conduit/conduit_data_array.cpp
@@ -247,7 +247,11 @@ DataArray<T>::diff(const DataArray<T> &array, Node &info, const float64 epsilon)
             info_ptr[i] = (*this)[i] - array[i];
             if(dtype().is_floating_point())
             {
-                res |= info_ptr[i] > epsilon || info_ptr[i] < -epsilon;
+                // NaN is only equal to NaN
+                const T t_val = (*this)[i];
+                const T o_val = array[i];
+                res |= info_ptr[i] > epsilon || info_ptr[i] < -epsilon ||
+                       (t_val != t_val) != (o_val != o_val);
             }
             else
             {
@@ -422,7 +426,11 @@ DataArray<T>::diff_compatible(const DataArray<T> &array, Node &info, const float
             info_ptr[i] = (*this)[i] - array[i];
             if(dtype().is_floating_point())
             {
-                res |= info_ptr[i] > epsilon || info_ptr[i] < -epsilon;
+                // NaN is only equal to NaN
+                const T t_val = (*this)[i];
+                const T o_val = array[i];
+                res |= info_ptr[i] > epsilon || info_ptr[i] < -epsilon ||
+                       (t_val != t_val) != (o_val != o_val);
             }
             else
             {
-- 
2.43.0


From c60007ce1d1b2ee2ed2e9800621173097e71eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:44 +0000
Subject: [PATCH 11/43] fix: Node::diff with relaxed integers compares every
 element and the element counts

---
 src/libs/conduit/conduit_node.cpp | 43 ++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 71f1c41..9fe8ef5 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17857,6 +17857,31 @@ Node::find_first_data_ptr() const
     return res;
 }
 
+//---------------------------------------------------------------------------//
+// compares the values of integer leaves that may have different integer types,
+// for each element of `a` (`b` must have at least as many).
+static bool
+integer_values_differ(const Node &a, const Node &b)
+{
+    const int64_accessor a_vals = a.as_int64_accessor();
+    const int64_accessor b_vals = b.as_int64_accessor();
+    // negative values have no unsigned counterpart, and uint64 values
+    // above the int64 range are negative when viewed as int64
+    const bool mixed = a.dtype().is_signed_integer() !=
+                       b.dtype().is_signed_integer();
+
+    for(index_t i = 0; i < a.dtype().number_of_elements(); i++)
+    {
+        const int64 a_val = a_vals[i];
+        if(a_val != b_vals[i] || (mixed && a_val < 0))
+        {
+            return true;
+        }
+    }
+
+    return false;
+}
+
 //---------------------------------------------------------------------------//
 bool
 Node::diff(const Node &n, Node &info, const float64 epsilon, bool relaxint) const
@@ -17873,12 +17898,9 @@ Node::diff(const Node &n, Node &info, const float64 epsilon, bool relaxint) cons
         // We ought to be able to compare integers of different sizes.
         if(relaxint)
         {
-            if(dtype().is_signed_integer() && n.dtype().is_signed_integer())
-                res = to_int64() != n.to_int64();
-            else if(dtype().is_unsigned_integer() && n.dtype().is_unsigned_integer())
-                res = to_uint64() != n.to_uint64();
-            else if(dtype().is_integer() && n.dtype().is_integer())
-                res = to_int64() != n.to_int64();
+            if(dtype().is_integer() && n.dtype().is_integer())
+                res = dtype().number_of_elements() != n.dtype().number_of_elements() ||
+                      integer_values_differ(*this, n);
             else
                 res = true;
         }
@@ -18061,12 +18083,9 @@ Node::diff_compatible(const Node &n, Node &info, const float64 epsilon,
         // We ought to be able to compare integers of different sizes.
         if(relaxint)
         {
-            if(dtype().is_signed_integer() && n.dtype().is_signed_integer())
-                res = to_int64() != n.to_int64();
-            else if(dtype().is_unsigned_integer() && n.dtype().is_unsigned_integer())
-                res = to_uint64() != n.to_uint64();
-            else if(dtype().is_integer() && n.dtype().is_integer())
-                res = to_int64() != n.to_int64();
+            if(dtype().is_integer() && n.dtype().is_integer())
+                res = dtype().number_of_elements() > n.dtype().number_of_elements() ||
+                      integer_values_differ(*this, n);
             else
                 res = true;
         }
-- 
2.43.0


From d4b5c1e023521a95197cb9e371706c695fed4001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:23 +0000
Subject: [PATCH 12/43] fix: Node::set from an array view copies the elements
 of the view only

---
 src/libs/conduit/conduit_node.cpp | 46 +++++++++++++++----------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 9fe8ef5..c8581bd 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -937,7 +937,7 @@ Node::set_int8_array(const int8_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -959,7 +959,7 @@ Node::set_int16_array(const int16_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -981,7 +981,7 @@ Node::set_int32_array(const int32_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1003,7 +1003,7 @@ Node::set_int64_array(const int64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1029,7 +1029,7 @@ Node::set_uint8_array(const uint8_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1051,7 +1051,7 @@ Node::set_uint16_array(const uint16_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1073,7 +1073,7 @@ Node::set_uint32_array(const uint32_array  &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1095,7 +1095,7 @@ Node::set_uint64_array(const uint64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1120,7 +1120,7 @@ Node::set_float32_array(const float32_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1142,7 +1142,7 @@ Node::set_float64_array(const float64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1168,7 +1168,7 @@ Node::set(const char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1188,7 +1188,7 @@ Node::set(const signed_char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1204,7 +1204,7 @@ Node::set(const unsigned_char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1224,7 +1224,7 @@ Node::set(const short_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1239,7 +1239,7 @@ Node::set(const unsigned_short_array&data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1259,7 +1259,7 @@ Node::set(const int_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1274,7 +1274,7 @@ Node::set(const unsigned_int_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1294,7 +1294,7 @@ Node::set(const long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1309,7 +1309,7 @@ Node::set(const unsigned_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1329,7 +1329,7 @@ Node::set(const long_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1344,7 +1344,7 @@ Node::set(const unsigned_long_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1364,7 +1364,7 @@ Node::set(const float_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1384,7 +1384,7 @@ Node::set(const double_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
-- 
2.43.0


From ae2d782b5d16a0c043c32b9f767ffaec42b3dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:35 +0000
Subject: [PATCH 13/43] fix: Node::set from a vector or initializer list honors
 the stride of the node's data

---
 src/libs/conduit/conduit_node.cpp | 414 ++++++++++++++++++++----------
 1 file changed, 276 insertions(+), 138 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index c8581bd..c4271f4 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -1495,9 +1495,12 @@ void
 Node::set_int8_vector(const std::vector<int8> &data)
 {
     init(DataType::int8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int8)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(int8),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(int8));
 }
 
 //---------------------------------------------------------------------------//
@@ -1512,9 +1515,12 @@ void
 Node::set_int16_vector(const std::vector<int16> &data)
 {
     init(DataType::int16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int16)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(int16),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(int16));
 }
 
 //---------------------------------------------------------------------------//
@@ -1529,9 +1535,12 @@ void
 Node::set_int32_vector(const std::vector<int32> &data)
 {
     init(DataType::int32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(int32),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(int32));
 }
 
 //---------------------------------------------------------------------------//
@@ -1546,9 +1555,12 @@ void
 Node::set_int64_vector(const std::vector<int64> &data)
 {
     init(DataType::int64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(int64),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(int64));
 }
 
 //---------------------------------------------------------------------------//
@@ -1567,9 +1579,12 @@ void
 Node::set_uint8_vector(const std::vector<uint8> &data)
 {
     init(DataType::uint8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint8)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(uint8),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(uint8));
 }
 
 //---------------------------------------------------------------------------//
@@ -1584,9 +1599,12 @@ void
 Node::set_uint16_vector(const std::vector<uint16> &data)
 {
     init(DataType::uint16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint16)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(uint16),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(uint16));
 }
 
 //---------------------------------------------------------------------------//
@@ -1601,9 +1619,12 @@ void
 Node::set_uint32_vector(const std::vector<uint32> &data)
 {
     init(DataType::uint32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(uint32),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(uint32));
 }
 
 //---------------------------------------------------------------------------//
@@ -1618,9 +1639,12 @@ void
 Node::set_uint64_vector(const std::vector<uint64> &data)
 {
     init(DataType::uint64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(uint64),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(uint64));
 }
 
 //---------------------------------------------------------------------------//
@@ -1639,9 +1663,12 @@ void
 Node::set_float32_vector(const std::vector<float32> &data)
 {
     init(DataType::float32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(float32),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(float32));
 }
 
 //---------------------------------------------------------------------------//
@@ -1657,9 +1684,12 @@ void
 Node::set_float64_vector(const std::vector<float64> &data)
 {
     init(DataType::float64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(float64),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(float64));
 }
 
 //---------------------------------------------------------------------------//
@@ -1679,9 +1709,12 @@ void
 Node::set(const std::vector<char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(char),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(char));
 }
 
 //-----------------------------------------------------------------------------
@@ -1691,9 +1724,12 @@ void
 Node::set(const std::vector<signed char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(signed char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(signed char),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(signed char));
 }
 
 //-----------------------------------------------------------------------------
@@ -1701,9 +1737,12 @@ void
 Node::set(const std::vector<unsigned char> &data)
 {
     init(DataType::c_unsigned_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(unsigned char),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(unsigned char));
 }
 //-----------------------------------------------------------------------------
 #endif // end use char check
@@ -1716,9 +1755,12 @@ void
 Node::set(const std::vector<short> &data)
 {
     init(DataType::c_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(short)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(short),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(short));
 }
 
 //-----------------------------------------------------------------------------
@@ -1726,9 +1768,12 @@ void
 Node::set(const std::vector<unsigned short> &data)
 {
     init(DataType::c_unsigned_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned short)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(unsigned short),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(unsigned short));
 }
 //-----------------------------------------------------------------------------
 #endif // end use short check
@@ -1741,9 +1786,12 @@ void
 Node::set(const std::vector<int> &data)
 {
     init(DataType::c_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(int),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(int));
 }
 
 //-----------------------------------------------------------------------------
@@ -1751,9 +1799,12 @@ void
 Node::set(const std::vector<unsigned int> &data)
 {
     init(DataType::c_unsigned_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned int)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(unsigned int),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(unsigned int));
 }
 //-----------------------------------------------------------------------------
 #endif // end use int check
@@ -1766,9 +1817,12 @@ void
 Node::set(const std::vector<long> &data)
 {
     init(DataType::c_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(long),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(long));
 }
 
 //-----------------------------------------------------------------------------
@@ -1776,9 +1830,12 @@ void
 Node::set(const std::vector<unsigned long> &data)
 {
     init(DataType::c_unsigned_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(unsigned long),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(unsigned long));
 }
 //-----------------------------------------------------------------------------
 #endif // end use long check
@@ -1791,9 +1848,12 @@ void
 Node::set(const std::vector<long long> &data)
 {
     init(DataType::c_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(long long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(long long),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(long long));
 }
 
 //-----------------------------------------------------------------------------
@@ -1801,9 +1861,12 @@ void
 Node::set(const std::vector<unsigned long long> &data)
 {
     init(DataType::c_unsigned_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned long long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(unsigned long long),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(unsigned long long));
 }
 //-----------------------------------------------------------------------------
 #endif // end use long long check
@@ -1816,9 +1879,12 @@ void
 Node::set(const std::vector<float> &data)
 {
     init(DataType::c_float(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(float),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(float));
 }
 //-----------------------------------------------------------------------------
 #endif // end use float check
@@ -1831,9 +1897,12 @@ void
 Node::set(const std::vector<double> &data)
 {
     init(DataType::c_double(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(double)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(double),
+            (size_t)dtype().stride(),
+            &data[0],
+            sizeof(double));
 }
 //-----------------------------------------------------------------------------
 #endif // end use double check
@@ -1869,9 +1938,12 @@ void
 Node::set_int8_initializer_list(const std::initializer_list<int8> &data)
 {
     init(DataType::int8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int8) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(int8),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(int8));
 }
 
 //-----------------------------------------------------------------------------
@@ -1888,9 +1960,12 @@ void
 Node::set_int16_initializer_list(const std::initializer_list<int16> &data)
 {
     init(DataType::int16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int16) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(int16),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(int16));
 }
 
 //-----------------------------------------------------------------------------
@@ -1907,9 +1982,12 @@ void
 Node::set_int32_initializer_list(const std::initializer_list<int32> &data)
 {
     init(DataType::int32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(int32),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(int32));
 }
 
 //-----------------------------------------------------------------------------
@@ -1927,9 +2005,12 @@ void
 Node::set_int64_initializer_list(const std::initializer_list<int64> &data)
 {
     init(DataType::int64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(int64),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(int64));
 }
 
 //-----------------------------------------------------------------------------
@@ -1951,9 +2032,12 @@ void
 Node::set_uint8_initializer_list(const std::initializer_list<uint8> &data)
 {
     init(DataType::uint8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint8) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(uint8),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(uint8));
 }
 
 //-----------------------------------------------------------------------------
@@ -1970,9 +2054,12 @@ void
 Node::set_uint16_initializer_list(const std::initializer_list<uint16> &data)
 {
     init(DataType::uint16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint16) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(uint16),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(uint16));
 }
 
 //-----------------------------------------------------------------------------
@@ -1989,9 +2076,12 @@ void
 Node::set_uint32_initializer_list(const std::initializer_list<uint32> &data)
 {
     init(DataType::uint32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(uint32),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(uint32));
 }
 
 //-----------------------------------------------------------------------------
@@ -2008,9 +2098,12 @@ void
 Node::set_uint64_initializer_list(const std::initializer_list<uint64> &data)
 {
     init(DataType::uint64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(uint64),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(uint64));
 }
 
 //-----------------------------------------------------------------------------
@@ -2032,9 +2125,12 @@ void
 Node::set_float32_initializer_list(const std::initializer_list<float32> &data)
 {
     init(DataType::float32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(float32),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(float32));
 }
 
 //-----------------------------------------------------------------------------
@@ -2051,9 +2147,12 @@ void
 Node::set_float64_initializer_list(const std::initializer_list<float64> &data)
 {
     init(DataType::float64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(float64),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(float64));
 }
 
 //-----------------------------------------------------------------------------
@@ -2072,9 +2171,12 @@ void
 Node::set(const std::initializer_list<char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(char),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(char));
 }
 
 //-----------------------------------------------------------------------------
@@ -2084,9 +2186,12 @@ void
 Node::set(const std::initializer_list<signed char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(signed char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(signed char),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(signed char));
 }
 
 //-----------------------------------------------------------------------------
@@ -2094,9 +2199,12 @@ void
 Node::set(const std::initializer_list<unsigned char> &data)
 {
     init(DataType::c_unsigned_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(unsigned char),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(unsigned char));
 }
 
 //-----------------------------------------------------------------------------
@@ -2110,9 +2218,12 @@ void
 Node::set(const std::initializer_list<short> &data)
 {
     init(DataType::c_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(short) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(short),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(short));
 }
 
 //-----------------------------------------------------------------------------
@@ -2120,9 +2231,12 @@ void
 Node::set(const std::initializer_list<unsigned short> &data)
 {
     init(DataType::c_unsigned_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned short) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(unsigned short),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(unsigned short));
 }
 
 //-----------------------------------------------------------------------------
@@ -2136,9 +2250,12 @@ void
 Node::set(const std::initializer_list<int> &data)
 {
     init(DataType::c_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(int),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(int));
 }
 
 //-----------------------------------------------------------------------------
@@ -2146,9 +2263,12 @@ void
 Node::set(const std::initializer_list<unsigned int> &data)
 {
     init(DataType::c_unsigned_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned int) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(unsigned int),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(unsigned int));
 }
 
 //-----------------------------------------------------------------------------
@@ -2162,9 +2282,12 @@ void
 Node::set(const std::initializer_list<long> &data)
 {
     init(DataType::c_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(long),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(long));
 }
 
 //-----------------------------------------------------------------------------
@@ -2172,9 +2295,12 @@ void
 Node::set(const std::initializer_list<unsigned long> &data)
 {
     init(DataType::c_unsigned_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(unsigned long),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(unsigned long));
 }
 
 //-----------------------------------------------------------------------------
@@ -2188,9 +2314,12 @@ void
 Node::set(const std::initializer_list<long long> &data)
 {
     init(DataType::c_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(long long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(long long),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(long long));
 }
 
 //-----------------------------------------------------------------------------
@@ -2198,9 +2327,12 @@ void
 Node::set(const std::initializer_list<unsigned long long> &data)
 {
     init(DataType::c_unsigned_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned long long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(unsigned long long),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(unsigned long long));
 }
 
 //-----------------------------------------------------------------------------
@@ -2214,9 +2346,12 @@ void
 Node::set(const std::initializer_list<float> &data)
 {
     init(DataType::c_float(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(float),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(float));
 }
 //-----------------------------------------------------------------------------
 #endif // end use float check
@@ -2229,9 +2364,12 @@ void
 Node::set(const std::initializer_list<double> &data)
 {
     init(DataType::c_double(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(double) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+            data.size(),
+            sizeof(double),
+            (size_t)dtype().stride(),
+            (void*)data.begin(),
+            sizeof(double));
 }
 //-----------------------------------------------------------------------------
 #endif // end use double check
-- 
2.43.0


From 5240c12d294c6f3a39257697f79fcfef878d697d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:44 +0000
Subject: [PATCH 14/43] fix: DataArray::set from another view never reads past
 its elements

---
 src/libs/conduit/conduit_data_array.cpp | 60 ++++++++++++++++---------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/libs/conduit/conduit_data_array.cpp b/src/libs/conduit/conduit_data_array.cpp
index c45f058..8d924f6 100644
--- a/src/libs/conduit/conduit_data_array.cpp
+++ b/src/libs/conduit/conduit_data_array.cpp
@@ -1771,7 +1771,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<int8> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1783,7 +1784,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<int16> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1795,7 +1797,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<int32> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1807,7 +1810,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<int64> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1823,7 +1827,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<uint8> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1835,7 +1840,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<uint16> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1847,7 +1853,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<uint32> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1859,7 +1866,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<uint64> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1875,7 +1883,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<float32> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1887,7 +1896,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataArray<float64> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1909,7 +1919,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<int8> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1921,7 +1932,8 @@ template <typename T>
 void            
 DataArray<T>::set(const DataAccessor<int16> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1933,7 +1945,8 @@ template <typename T>
 void            
 DataArray<T>::set(const DataAccessor<int32> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1945,7 +1958,8 @@ template <typename T>
 void            
 DataArray<T>::set(const DataAccessor<int64> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1961,7 +1975,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<uint8> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1973,7 +1988,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<uint16> &values)
 { 
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1985,7 +2001,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<uint32> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -1997,7 +2014,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<uint64> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -2013,7 +2031,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<float32> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
@@ -2025,7 +2044,8 @@ template <typename T>
 void
 DataArray<T>::set(const DataAccessor<float64> &values)
 {
-    index_t num_elems = m_dtype.number_of_elements();
+    index_t num_elems = std::min(m_dtype.number_of_elements(),
+                                 values.number_of_elements());
     for(index_t i=0; i <num_elems; i++)
     {
         this->element(i) = (T)values[i];
-- 
2.43.0


From cbfdfdd93718e0aca950174b317629e73441ed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:08 +0000
Subject: [PATCH 15/43] fix: split_string and rsplit_string skip the whole
 separator

---
 src/libs/conduit/conduit_utils.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 6601ae1..5dc9d51 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -460,8 +460,7 @@ split_string(const std::string &str,
     if (found != std::string::npos)
     {
         curr = str.substr(0,found);
-        if(found != str.size()-1)
-            next = str.substr(found+1,str.size()-(found-1));
+        next = str.substr(found + sep.size());
     }
     else
     {
@@ -513,8 +512,7 @@ rsplit_string(const std::string &str,
     if (found != std::string::npos)
     {
         next = str.substr(0,found);
-        if(found != str.size()-1)
-             curr = str.substr(found+1,str.size()-(found-1));
+        curr = str.substr(found + sep.size());
     }
     else
     {
-- 
2.43.0


From 5061cf35584b57387bb7bb0b116a234a6c630e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:53 +0000
Subject: [PATCH 16/43] fix: rsplit_file_path keeps the drive apart when the
 separator follows it

---
 src/libs/conduit/conduit_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 5dc9d51..6e408ed 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -675,7 +675,7 @@ rsplit_file_path(const std::string &path,
                                           curr,
                                           next);
             // add drive letter back
-            if(next == "")
+            if(check_path.find(sep) == std::string::npos)
             {
                 // there was no split
                 curr = path.substr(0,3) + curr;
-- 
2.43.0


From 30409004933e9bd37bdf81e5ba31ec4b3c95d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:09 +0000
Subject: [PATCH 17/43] fix: unescape_special_chars leaves escapes it does not
 know as they are

---
 src/libs/conduit/conduit_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 6e408ed..74d2794 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1244,7 +1244,7 @@ unescape_special_chars(const std::string &input)
                 default:
                 {
                     // simply emit
-                    res += val;
+                    res += input[i];
                     break;
                 }
             }
-- 
2.43.0


From d56ee792d4b6ae2457f7f694dbbe85ffdfc04446 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:37:49 +0000
Subject: [PATCH 18/43] fix: O2MIterator::index(DATA) reads the indices at
 offset + many

---
 .../conduit_blueprint_o2mrelation_iterator.cpp         | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
index 3e9cc9f..aa32ac8 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
@@ -426,13 +426,13 @@ O2MIterator::index(index_t one_index, index_t many_index, IndexType itype) const
             offset = m_offsets_node->as_index_t_accessor()[one_index];
         }
 
-        index = offset;
-        if(m_indices_node)
+        // sizes and offsets refer to entries in indices, so the many index
+        // selects the entry
+        index = offset + (many_index - 1);
+        if(m_indices_node && many_index > 0)
         {
-            index = m_indices_node->as_index_t_accessor()[offset];
+            index = m_indices_node->as_index_t_accessor()[index];
         }
-
-        index += (many_index - 1);
     }
     else if(itype == ONE)
     {
-- 
2.43.0


From 0bbc990743598f8419fb7a118aa6f8d56e1facaf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:37:49 +0000
Subject: [PATCH 19/43] fix: o2mrelation compact_to copies a single one and
 every data path

---
 src/libs/blueprint/conduit_blueprint_o2mrelation.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
index 6a3bfb6..1626284 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
@@ -211,9 +211,10 @@ void compact_to(const conduit::Node &o2mrelation,
 
         conduit::Node o2m_temp, res_temp;
         index_t curr_index = 0, curr_offset = 0;
-        while(o2miter.has_next(conduit::blueprint::o2mrelation::ONE))
+        const index_t num_ones = o2miter.elements(conduit::blueprint::o2mrelation::ONE);
+        for(index_t one_index = 0; one_index < num_ones; one_index++)
         {
-            const index_t one_index = o2miter.next(conduit::blueprint::o2mrelation::ONE);
+            o2miter.to(one_index, conduit::blueprint::o2mrelation::ONE);
 
             res_temp.set_external(offsets_dtype, res_offsets.element_ptr(one_index));
             o2m_temp.set(curr_offset);
@@ -225,7 +226,7 @@ void compact_to(const conduit::Node &o2mrelation,
                 o2miter.next(conduit::blueprint::o2mrelation::MANY);
                 const index_t data_index = o2miter.index(conduit::blueprint::o2mrelation::DATA);
 
-                for(index_t pi = 0; pi < (index_t)o2m_paths_curr.size(); pi++, curr_index++)
+                for(index_t pi = 0; pi < (index_t)o2m_paths_curr.size(); pi++)
                 {
                     const conduit::Node &o2m_data = o2mrelation[o2m_paths_curr[pi]];
                     conduit::Node &res_data = res[o2m_paths_curr[pi]];
@@ -235,6 +236,7 @@ void compact_to(const conduit::Node &o2mrelation,
                     res_temp.set_external(data_dtype, (void*)res_data.element_ptr(curr_index));
                     o2m_temp.to_data_type(data_dtype.id(), res_temp);
                 }
+                curr_index++;
             }
 
             curr_offset += o2miter.elements(conduit::blueprint::o2mrelation::MANY);
-- 
2.43.0


From 4f78d3fad3cf58d94e14e8d5f61ca816ebc64557 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:37:49 +0000
Subject: [PATCH 20/43] fix: mcarray to_contiguous and to_interleaved keep the
 components of a list

---
 .../blueprint/conduit_blueprint_mcarray.cpp   | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mcarray.cpp b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
index 3f31c7d..e6e8aaf 100644
--- a/src/libs/blueprint/conduit_blueprint_mcarray.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
@@ -173,7 +173,15 @@ to_contiguous(const conduit::Node &src,
         curr_dt.set_offset(curr_offset);
         
         // put the dtype into our schema with the correct name
-        s_dest[name] = curr_dt;
+        // (the components of a list have no names)
+        if(src.dtype().is_list())
+        {
+            s_dest.append() = curr_dt;
+        }
+        else
+        {
+            s_dest[name] = curr_dt;
+        }
         
         // update the offset for the next component
         curr_offset += elem_bytes * curr_dt.number_of_elements();
@@ -232,7 +240,15 @@ to_interleaved(const conduit::Node &src,
         curr_dt.set_offset(curr_offset);
         
         // put the dtype into our schema with the correct name
-        s_dest[name] = curr_dt;
+        // (the components of a list have no names)
+        if(src.dtype().is_list())
+        {
+            s_dest.append() = curr_dt;
+        }
+        else
+        {
+            s_dest[name] = curr_dt;
+        }
         
         // update the offset for the next component
         curr_offset += elem_bytes;
-- 
2.43.0


From bc6775c93645563d6b2ce9fcd33c2dc26f7558e1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:37:49 +0000
Subject: [PATCH 21/43] fix: mcarray verify rejects an empty first component
 followed by longer ones

---
 src/libs/blueprint/conduit_blueprint_mcarray.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mcarray.cpp b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
index e6e8aaf..e4ef933 100644
--- a/src/libs/blueprint/conduit_blueprint_mcarray.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
@@ -76,7 +76,8 @@ bool verify(const conduit::Node &n,
     }
 
     NodeConstIterator itr = n.children();
-    index_t num_elems = 0;
+    // -1: not known yet
+    index_t num_elems = -1;
 
     while(itr.has_next())
     {
@@ -86,7 +87,7 @@ bool verify(const conduit::Node &n,
         // make sure we have a number
         if(chld.dtype().is_number())
         {
-            if(num_elems == 0)
+            if(num_elems == -1)
             {
                 num_elems = chld.dtype().number_of_elements();
             }
-- 
2.43.0


From 3dc84dcee6963f2d147546ee33b6c5f282e3b719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:02 +0000
Subject: [PATCH 22/43] fix: o2mrelation compact_to leaves the source data
 unchanged

---
 src/libs/blueprint/conduit_blueprint_o2mrelation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
index 1626284..542d738 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
@@ -217,6 +217,8 @@ void compact_to(const conduit::Node &o2mrelation,
             o2miter.to(one_index, conduit::blueprint::o2mrelation::ONE);
 
             res_temp.set_external(offsets_dtype, res_offsets.element_ptr(one_index));
+            // don't write through to the source data o2m_temp last described
+            o2m_temp.reset();
             o2m_temp.set(curr_offset);
             o2m_temp.to_data_type(offsets_dtype.id(), res_temp);
 
-- 
2.43.0


From 404ae45de09f39b88c4f112090dbdf7a8b575bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:22 +0000
Subject: [PATCH 23/43] fix: generate with data advances auto offsets by the
 bytes the schema describes

The destination node is compact, so taking the advance from it misplaced
every leaf that follows a strided or padded one.
---
 src/libs/conduit/conduit_generator.cpp | 116 +++++++++++++++----------
 1 file changed, 70 insertions(+), 46 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index feb5ef3..24c0afc 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -182,7 +182,8 @@ public:
                                          const conduit_rapidjson::Value &jvalue);
     
     // if data pointer is provided, data is copied into dest node
-    static void    walk_json_schema(Node   *node,
+    // returns the number of (strided) bytes described by the schema
+    static index_t walk_json_schema(Node   *node,
                                     Schema *schema,
                                     void   *data,
                                     const conduit_rapidjson::Value &jvalue,
@@ -350,7 +351,8 @@ public:
                                     index_t curr_offset,
                                     const bool external = false);
 
-    static void    walk_yaml_schema(Node   *node,
+    // returns the number of (strided) bytes described by the schema
+    static index_t walk_yaml_schema(Node   *node,
                                     Schema *schema,
                                     void   *data,
                                     yaml_document_t *yaml_doc,
@@ -1357,13 +1359,17 @@ Generator::Parser::JSON::walk_pure_json_schema(Node *node,
 
 
 //---------------------------------------------------------------------------//
-void 
+index_t 
 Generator::Parser::JSON::walk_json_schema(Node   *node,
                                           Schema *schema,
                                           void   *data,
                                           const conduit_rapidjson::Value &jvalue,
                                           index_t curr_offset)
 {
+    // bytes described by the schema, note: the dest node is compact,
+    // so this can't be obtained from the dest schema
+    index_t total_bytes = 0;
+
     // object cases
     if(jvalue.IsObject())
     {
@@ -1407,14 +1413,15 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
                     curr_node->set_schema_ptr(curr_schema);
                     curr_node->set_parent(node);
                     node->append_node_ptr(curr_node);
-                    walk_json_schema(curr_node,
-                                     curr_schema,
-                                     data,
-                                     dt_value,
-                                     curr_offset);
+                    index_t child_bytes = walk_json_schema(curr_node,
+                                                           curr_schema,
+                                                           data,
+                                                           dt_value,
+                                                           curr_offset);
+                    total_bytes += child_bytes;
                     // auto offset only makes sense when we have data
                     if(data != NULL)
-                        curr_offset += curr_schema->total_strided_bytes();
+                        curr_offset += child_bytes;
                 }
                 
             }
@@ -1423,6 +1430,7 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
                 // handle leaf node with explicit props
                 DataType src_dtype;
                 parse_leaf_dtype(jvalue,curr_offset,src_dtype);
+                total_bytes = src_dtype.strided_bytes();
 
                 DataType des_dtype;
                 src_dtype.compact_to(des_dtype);
@@ -1495,15 +1503,16 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
                 curr_node->set_schema_ptr(curr_schema);
                 curr_node->set_parent(node);
                 node->append_node_ptr(curr_node);
-                walk_json_schema(curr_node,
-                                 curr_schema,
-                                 data,
-                                 itr->value,
-                                 curr_offset);
+                index_t child_bytes = walk_json_schema(curr_node,
+                                                       curr_schema,
+                                                       data,
+                                                       itr->value,
+                                                       curr_offset);
+                total_bytes += child_bytes;
                 
                 // auto offset only makes sense when we have data
                 if(data != NULL)
-                    curr_offset += curr_schema->total_strided_bytes();
+                    curr_offset += child_bytes;
             }
             
         }
@@ -1521,14 +1530,15 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
             curr_node->set_schema_ptr(curr_schema);
             curr_node->set_parent(node);
             node->append_node_ptr(curr_node);
-            walk_json_schema(curr_node,
-                             curr_schema,
-                             data,
-                             jvalue[i],
-                             curr_offset);
+            index_t child_bytes = walk_json_schema(curr_node,
+                                                   curr_schema,
+                                                   data,
+                                                   jvalue[i],
+                                                   curr_offset);
+            total_bytes += child_bytes;
             // auto offset only makes sense when we have data
             if(data != NULL)
-                curr_offset += curr_schema->total_strided_bytes();
+                curr_offset += child_bytes;
         }
     }
     // Simplest case, handles "uint32", "float64", with extended type info
@@ -1536,6 +1546,7 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
     {
         DataType dtype;
         parse_leaf_dtype(jvalue,curr_offset,dtype);
+        total_bytes = dtype.strided_bytes();
         schema->set(dtype);
         
         if(data != NULL)
@@ -1556,6 +1567,8 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
                       << "Invalid JSON type for parsing Node."
                       << " Expected: JSON Object, Array, or String");
     }
+
+    return total_bytes;
 }
 
 //---------------------------------------------------------------------------//
@@ -2634,7 +2647,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
 
 
 //---------------------------------------------------------------------------//
-void 
+index_t 
 Generator::Parser::YAML::walk_yaml_schema(Node *node,
                                           Schema *schema,
                                           void *data,
@@ -2643,6 +2656,10 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                                           index_t curr_offset,
                                           const bool external)
 {
+    // bytes described by the schema, note: the dest node may be compact,
+    // so this can't be obtained from the dest schema
+    index_t total_bytes = 0;
+
     // object cases
     if (check_yaml_is_mapping_node(yaml_node))
     {
@@ -2695,17 +2712,18 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                     curr_node->set_schema_ptr(curr_schema);
                     curr_node->set_parent(node);
                     node->append_node_ptr(curr_node);
-                    walk_yaml_schema(curr_node,
-                                     curr_schema,
-                                     data,
-                                     yaml_doc,
-                                     dt_value,
-                                     curr_offset,
-                                     external);
+                    index_t child_bytes = walk_yaml_schema(curr_node,
+                                                           curr_schema,
+                                                           data,
+                                                           yaml_doc,
+                                                           dt_value,
+                                                           curr_offset,
+                                                           external);
+                    total_bytes += child_bytes;
                     // auto offset only makes sense when we have data
                     if (data)
                     {
-                        curr_offset += curr_schema->total_strided_bytes();
+                        curr_offset += child_bytes;
                     }
                 }
             }
@@ -2714,6 +2732,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                 // handle leaf node with explicit props
                 DataType src_dtype;
                 parse_leaf_dtype(yaml_doc, yaml_node, curr_offset, src_dtype);
+                total_bytes = src_dtype.strided_bytes();
 
                 DataType des_dtype;
                 src_dtype.compact_to(des_dtype);
@@ -2803,18 +2822,19 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                 curr_node->set_schema_ptr(curr_schema);
                 curr_node->set_parent(node);
                 node->append_node_ptr(curr_node);
-                walk_yaml_schema(curr_node,
-                                 curr_schema,
-                                 data,
-                                 yaml_doc,
-                                 yaml_child,
-                                 curr_offset,
-                                 external);
+                index_t child_bytes = walk_yaml_schema(curr_node,
+                                                       curr_schema,
+                                                       data,
+                                                       yaml_doc,
+                                                       yaml_child,
+                                                       curr_offset,
+                                                       external);
+                total_bytes += child_bytes;
 
                 // auto offset only makes sense when we have data
                 if (data)
                 {
-                    curr_offset += curr_schema->total_strided_bytes();
+                    curr_offset += child_bytes;
                 }
             }
         }
@@ -2835,17 +2855,18 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
             curr_node->set_schema_ptr(curr_schema);
             curr_node->set_parent(node);
             node->append_node_ptr(curr_node);
-            walk_yaml_schema(curr_node,
-                             curr_schema,
-                             data,
-                             yaml_doc,
-                             yaml_child,
-                             curr_offset,
-                             external);
+            index_t child_bytes = walk_yaml_schema(curr_node,
+                                                   curr_schema,
+                                                   data,
+                                                   yaml_doc,
+                                                   yaml_child,
+                                                   curr_offset,
+                                                   external);
+            total_bytes += child_bytes;
             // auto offset only makes sense when we have data
             if (data)
             {
-                curr_offset += curr_schema->total_strided_bytes();
+                curr_offset += child_bytes;
             }
         }
     }
@@ -2854,6 +2875,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
     {
         DataType dtype;
         parse_leaf_dtype(yaml_doc, yaml_node, curr_offset, dtype);
+        total_bytes = dtype.strided_bytes();
         schema->set(dtype);
 
         if (data)
@@ -2874,6 +2896,8 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                       << "Invalid YAML type for parsing Node."
                       << " Expected: YAML Object, Array, or String");
     }
+
+    return total_bytes;
 }
 
 
-- 
2.43.0


From 4144dfb4ed0d8a071098d214b09fa8f9d2c19698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:22 +0000
Subject: [PATCH 24/43] fix: generate with data copies leaves given only by
 their type name

Such leaves ("a": "int32") kept pointing at the caller's buffer, while all
other leaves are copied.
---
 src/libs/conduit/conduit_generator.cpp | 41 +++++++++++++++++---------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 24c0afc..e3c93da 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -1547,18 +1547,20 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
         DataType dtype;
         parse_leaf_dtype(jvalue,curr_offset,dtype);
         total_bytes = dtype.strided_bytes();
-        schema->set(dtype);
-        
+
+        DataType des_dtype;
+        dtype.compact_to(des_dtype);
+
+        // node is already linked to the schema pointer
+        // we need to dynamically alloc, use compact dtype
+        node->set(des_dtype);  // causes an init
+
         if(data != NULL)
         {
-            // node is already linked to the schema pointer
-            node->set_data_ptr(data);
-        }
-        else
-        {
-            // node is already linked to the schema pointer
-            // we need to dynamically alloc
-            node->set(dtype);  // causes an init
+            // copy bytes from src data to node's memory
+            utils::conduit_memcpy(node->data_ptr(),
+                                  ((uint8*)data) + dtype.offset(),
+                                  des_dtype.strided_bytes());
         }
     }
     else
@@ -2876,18 +2878,29 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
         DataType dtype;
         parse_leaf_dtype(yaml_doc, yaml_node, curr_offset, dtype);
         total_bytes = dtype.strided_bytes();
-        schema->set(dtype);
 
-        if (data)
+        if (data && external)
         {
             // node is already linked to the schema pointer
+            schema->set(dtype);
             node->set_data_ptr(data);
         }
         else
         {
+            DataType des_dtype;
+            dtype.compact_to(des_dtype);
+
             // node is already linked to the schema pointer
-            // we need to dynamically alloc
-            node->set(dtype);  // causes an init
+            // we need to dynamically alloc, use compact dtype
+            node->set(des_dtype);  // causes an init
+
+            if (data)
+            {
+                // copy bytes from src data to node's memory
+                utils::conduit_memcpy(node->data_ptr(),
+                                      ((uint8*)data) + dtype.offset(),
+                                      des_dtype.strided_bytes());
+            }
         }
     }
     else
-- 
2.43.0


From 6d7ccd80bdfee5d22fa7d9df73d916bd86c80318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:22 +0000
Subject: [PATCH 25/43] fix: generate_external with a yaml schema keeps offsets
 and strides

The compacted type was used with the caller's buffer, so every leaf with
explicit properties read from the start of the buffer.
---
 src/libs/conduit/conduit_generator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index e3c93da..4d7fb36 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -2753,8 +2753,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                         if (external) // handle conduit_yaml_external case
                         {
                             // node is already linked to the schema pointer
-                            schema->set(des_dtype);
-                            schema->print();
+                            schema->set(src_dtype);
                             node->set_data_ptr(data);
                         }
                         else
-- 
2.43.0


From fb146197b368022753aa10880cdf796d9bf8867c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:22 +0000
Subject: [PATCH 26/43] fix: generate_external with a json schema does not
 print to stdout

---
 src/libs/conduit/conduit_generator.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 4d7fb36..b0798b6 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -1657,7 +1657,6 @@ Generator::Parser::JSON::walk_json_schema_external(Node   *node,
                     {
                         // node is already linked to the schema pointer
                         schema->set(dtype);
-                        schema->print();
                         node->set_data_ptr(data);
                     }
                     else
-- 
2.43.0


From 1e2bc417efd1b2aad78949085b73a4575320c4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:22 +0000
Subject: [PATCH 27/43] fix: yaml leaf types hold one element unless a number
 is given

The test for an explicit number_of_elements was inverted: leaves without one
got no elements, and an explicit 0 became 1.
---
 src/libs/conduit/conduit_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index b0798b6..febe606 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -2592,7 +2592,7 @@ Generator::Parser::YAML::parse_leaf_dtype(yaml_document_t *yaml_doc,
                 length = get_yaml_sequence_length(value_node);
             }
             // support explicit length 0 in a schema
-            else if (fetch_yaml_node_from_object_by_name(yaml_doc, yaml_node, "number_of_elements"))
+            else if (!num_ele_node)
             {
                 length = 1;
             }
-- 
2.43.0


From 0078f8ab053a2a35a5a98005d7bc3dd37bda7fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:22 +0000
Subject: [PATCH 28/43] fix: yaml list lengths look up 'reference' inside
 'length'

---
 src/libs/conduit/conduit_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index febe606..dc563e1 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -2681,7 +2681,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                     }
                     else if (check_yaml_is_mapping_node(len_value))
                     {
-                        const yaml_node_t *ref_value = fetch_yaml_node_from_object_by_name(yaml_doc, yaml_node, "reference");
+                        const yaml_node_t *ref_value = fetch_yaml_node_from_object_by_name(yaml_doc, len_value, "reference");
                         if (ref_value)
                         {
                             const std::string ref_path = get_yaml_string(ref_value);
-- 
2.43.0


From b7e65a37546e10aa54235ad5bbda31d4840307a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:11 +0000
Subject: [PATCH 29/43] fix: conduit_json values read back what was written

Text with backslashes was unescaped twice, and a scalar nan or inf, which is
written as a json string, raised an error.
---
 src/libs/conduit/conduit_generator.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index dc563e1..e019aab 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -958,8 +958,20 @@ Generator::Parser::JSON::parse_inline_leaf(const conduit_rapidjson::Value &jvalu
     {
         if(node.dtype().id() == DataType::CHAR8_STR_ID)
         {
+            // note: the json parser already unescapes special chars
             std::string sval(jvalue.GetString());
-            node.set(utils::unescape_special_chars(sval));
+            node.set(sval);
+        }
+        // string reps of nan, inf, etc
+        else if(node.dtype().id() == DataType::FLOAT32_ID &&
+                string_is_double(jvalue.GetString()))
+        {
+            node.set((float32)string_to_double(jvalue.GetString()));
+        }
+        else if(node.dtype().id() == DataType::FLOAT64_ID &&
+                string_is_double(jvalue.GetString()))
+        {
+            node.set((float64)string_to_double(jvalue.GetString()));
         }
         else
         {
-- 
2.43.0


From 4d615756cddbdfe1c9b68fcc52381f0f47005c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:11 +0000
Subject: [PATCH 30/43] fix: child names are escaped when written as json

---
 src/libs/conduit/conduit_node.cpp   | 4 +++-
 src/libs/conduit/conduit_schema.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index c4271f4..394e742 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -13655,7 +13655,9 @@ Node::to_json_generic(std::ostream &os,
         for(size_t i=0; i <  nchildren;i++)
         {
             utils::indent(os,indent,depth+1,pad);
-            os << "\""<< m_schema->object_order()[i] << "\": ";
+            os << "\""
+               << utils::escape_special_chars(m_schema->object_order()[i])
+               << "\": ";
             m_children[i]->to_json_generic(os,
                                            detailed,
                                            address,
diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index 13dce2e..60fb63d 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -551,7 +551,9 @@ Schema::to_json_stream(std::ostream &os,
         for(size_t i=0; i < nchildren;i++)
         {
             utils::indent(os,indent,depth+1,pad);
-            os << "\""<< object_order()[i] << "\": ";
+            os << "\""
+               << utils::escape_special_chars(object_order()[i])
+               << "\": ";
             children()[i]->to_json_stream(os,indent,depth+1,pad,eoe);
             if(i < nchildren-1)
                 os << ",";
-- 
2.43.0


From d139bfec1ba03b61086d844b69feebceda1d2399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:11 +0000
Subject: [PATCH 31/43] fix: json_sanitize finds the end of strings that end in
 a backslash

Also strings at the start of the text, and quotes inside of comments.
---
 src/libs/conduit/conduit_utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 74d2794..14661ab 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -957,13 +957,14 @@ json_sanitize(const std::string &json)
     bool        in_comment=false;
     bool        in_string=false;
     bool        in_id =false;
+    bool        escaped=false;
     std::string cur_id = "";
 
     for(size_t i = 0; i < json.size(); ++i)
     {
         bool emit = true;
         // check for start & end of a string
-        if(json[i] == '\"' &&  ( i > 0 && ( json[i-1] != '\\' )))
+        if(json[i] == '\"' && !escaped && !in_comment)
         {
             if(in_string)
                 in_string = false;
@@ -971,6 +972,9 @@ json_sanitize(const std::string &json)
                 in_string = true;
         }
 
+        // in a string, a backslash escapes the char that follows it
+        escaped = in_string && !escaped && json[i] == '\\';
+
         // handle two cases were we want to sanitize:
         // comments '//' to end of line & unquoted ids
         if(!in_string)
-- 
2.43.0


From 949700df28b0e6781ef139f1ec8642f25aa81bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:11 +0000
Subject: [PATCH 32/43] fix: json arrays with integers above the int64 range
 can be read

Reading one ended the process with a failed json parser assertion.
---
 src/libs/conduit/conduit_generator.cpp | 30 ++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index e019aab..e578157 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -1290,7 +1290,37 @@ Generator::Parser::JSON::walk_pure_json_schema(Node *node,
     else if (jvalue.IsArray()) 
     {
         index_t hval_type = check_homogenous_json_array(jvalue);
+
+        // integers that do not fit in an int64
+        bool all_int64  = true;
+        bool all_uint64 = true;
         if(hval_type == DataType::INT64_ID)
+        {
+            for (conduit_rapidjson::SizeType i = 0; i < jvalue.Size(); i++)
+            {
+                all_int64  = all_int64  && jvalue[i].IsInt64();
+                all_uint64 = all_uint64 && jvalue[i].IsUint64();
+            }
+        }
+
+        if(hval_type == DataType::INT64_ID && !all_int64)
+        {
+            if(all_uint64)
+            {
+                node->set(DataType::uint64(jvalue.Size()));
+                uint64_array vals = node->value();
+                parse_json_uint64_array(jvalue,vals);
+            }
+            else
+            {
+                // negative values as well, promote to a double
+                // (may be lossy in some cases)
+                node->set(DataType::float64(jvalue.Size()));
+                float64_array vals = node->value();
+                parse_json_float64_array(jvalue,vals);
+            }
+        }
+        else if(hval_type == DataType::INT64_ID)
         {
             node->set(DataType::int64(jvalue.Size()));
             int64_array vals = node->value();
-- 
2.43.0


From 748e55969ef97469c6aa8fd949b66f087a30329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:11 +0000
Subject: [PATCH 33/43] fix: conduit_yaml strings may be empty or look like
 numbers

---
 src/libs/conduit/conduit_generator.cpp | 29 +++++++++++++-------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index e578157..226bde5 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -2414,7 +2414,13 @@ void
 Generator::Parser::YAML::parse_inline_leaf(const char *yaml_txt,
                                            Node &node)
 {
-    if (string_is_integer(yaml_txt) || string_is_double(yaml_txt))
+    // yaml can't tell the string "42" from the number 42, the
+    // type of the node does
+    if (node.dtype().id() == DataType::CHAR8_STR_ID)
+    {
+        node.set_char8_str(yaml_txt);
+    }
+    else if (string_is_integer(yaml_txt) || string_is_double(yaml_txt))
     {
         switch(node.dtype().id())
         {
@@ -2469,21 +2475,14 @@ Generator::Parser::YAML::parse_inline_leaf(const char *yaml_txt,
     }
     else // general string case
     {
-        if (node.dtype().id() == DataType::CHAR8_STR_ID)
-        {
-            node.set_char8_str(yaml_txt);
-        }
-        else
-        {
-             // YAML type incompatible with char8_str
-             // only allow strings to be assigned to a char8_str type
-             // throw parsing error if our inline values
-             // don't match what we expected
+        // YAML type incompatible with char8_str
+        // only allow strings to be assigned to a char8_str type
+        // throw parsing error if our inline values
+        // don't match what we expected
 
-            CONDUIT_ERROR("YAML Generator error:\n"
-                           << "a YAML string can only be used as an inline"
-                           << " value for a Conduit CHAR8_STR Node.");
-        }
+        CONDUIT_ERROR("YAML Generator error:\n"
+                       << "a YAML string can only be used as an inline"
+                       << " value for a Conduit CHAR8_STR Node.");
     }
 }
 
-- 
2.43.0


From 6f12f720868939f1c0b57ef0357e8a326fd0c68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:54 +0000
Subject: [PATCH 34/43] fix: conduit_yaml float leaves accept arrays of whole
 numbers

---
 src/libs/conduit/conduit_generator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 226bde5..7e995ff 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -2210,6 +2210,13 @@ Generator::Parser::YAML::parse_inline_value(yaml_document_t *yaml_doc,
                     case DataType::INT64_ID:
                         node.as_int64_array().set(vals);
                         break;
+                    // floats
+                    case DataType::FLOAT32_ID:
+                        node.as_float32_array().set(vals);
+                        break;
+                    case DataType::FLOAT64_ID:
+                        node.as_float64_array().set(vals);
+                        break;
                     default:
                         CONDUIT_ERROR("YAML Generator error:\n"
                                        << "attempting to set non-numeric Node with"
-- 
2.43.0


From 00788059b511542c2f198aceb924dac5329e4645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:33 +0000
Subject: [PATCH 35/43] fix: json_sanitize keeps words at the start and the end
 of the text

---
 src/libs/conduit/conduit_utils.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 14661ab..d845984 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -997,9 +997,9 @@ json_sanitize(const std::string &json)
                 {
                     // ids can't start with numbers ,
                     // check the prior char if it exists
-                    if(i > 0 &&
-                       !check_num_char(json[i-1]) &&
-                       json[i-1] != '.')
+                    if(i == 0 ||
+                       (!check_num_char(json[i-1]) &&
+                        json[i-1] != '.'))
                     {
                         in_id = true;
                         // accum id chars
@@ -1054,6 +1054,21 @@ json_sanitize(const std::string &json)
             res += json[i];
     }
 
+    // finish an id that ends the text
+    if(in_id)
+    {
+        if( !(cur_id == "true"  ||
+              cur_id == "false" ||
+              cur_id == "null" ))
+        {
+            res += "\"" + cur_id + "\"";
+        }
+        else
+        {
+            res += cur_id;
+        }
+    }
+
     return res;
 }
 
-- 
2.43.0


From 51d60501806d2a004aa5102c92e967fdc1e23d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:21 +0000
Subject: [PATCH 36/43] fix: an empty yaml sequence reads as an empty list

---
 src/libs/conduit/conduit_generator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 7e995ff..8110ece 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -3238,6 +3238,11 @@ Generator::Parser::YAML::walk_pure_yaml_schema(Node *node,
         else
         {
             // general case (not a numeric array)
+            // if we make it here and have an empty yaml list
+            // we still want the conduit node to take on the
+            // list role
+            schema->set(DataType::list());
+
             for (index_t cld_idx = 0; cld_idx < get_yaml_sequence_length(yaml_node); cld_idx ++)
             {
                 yaml_node_t *yaml_child = fetch_yaml_node_from_list(yaml_doc, yaml_node, cld_idx);
-- 
2.43.0


From cabef5dff04e04b26ff21761746a686861793013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:16 +0000
Subject: [PATCH 37/43] fix: mpi::send_using_schema of a compact part of a
 larger tree

A compact and contiguous node that does not start at offset zero was sent
with a schema holding its offsets in the larger tree, so the receiver read
beyond the message. Always send the compact schema.
---
 src/libs/relay/conduit_relay_mpi.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index 330381a..a8a85d9 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -531,15 +531,9 @@ send_using_schema(const Node &node, int dest, int tag, MPI_Comm comm)
 {     
     Schema s_data_compact;
     
-    // schema will only be valid if compact and contig
-    if( node.is_compact() && node.is_contiguous())
-    {
-        s_data_compact = node.schema();
-    }
-    else
-    {
-        node.schema().compact_to(s_data_compact);
-    }
+    // the schema sent must start at offset zero, even when the node
+    // is a compact and contiguous part of a larger tree
+    node.schema().compact_to(s_data_compact);
     
     std::string snd_schema_json = s_data_compact.to_json();
         
-- 
2.43.0


From 8e779026fc77f46f67f461263ee329b20cf7717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:16 +0000
Subject: [PATCH 38/43] fix: communicate_using_schema send of a compact part of
 a larger tree

As in send_using_schema, the schema was sent with the offsets of the larger
tree. Always send the compact schema.
---
 src/libs/relay/conduit_relay_mpi.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index a8a85d9..72a024a 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -2087,15 +2087,9 @@ communicate_using_schema::execute_internal()
         {
             Schema s_data_compact;
             const Node &node = *operations[i].node[0];
-            // schema will only be valid if compact and contig
-            if( node.is_compact() && node.is_contiguous())
-            {
-                s_data_compact = node.schema();
-            }
-            else
-            {
-                node.schema().compact_to(s_data_compact);
-            }
+            // the schema sent must start at offset zero, even when the node
+            // is a compact and contiguous part of a larger tree
+            node.schema().compact_to(s_data_compact);
     
             std::string snd_schema_json = s_data_compact.to_json();
         
-- 
2.43.0


From 5418a703b570546f09b4e692805412d351bd3819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:16 +0000
Subject: [PATCH 39/43] fix: mpi::broadcast_using_schema of a compact part of a
 larger tree

The root sent the schema with the offsets of the larger tree, so the other
ranks read beyond the data. Always send the compact schema.
---
 src/libs/relay/conduit_relay_mpi.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index 72a024a..b131209 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -1828,7 +1828,11 @@ broadcast_using_schema(Node &node,
            node.is_compact() && 
            node.is_contiguous())
         {
-            bcast_buffers["schema"] = node.schema().to_json();
+            // the schema sent must start at offset zero, even when the node
+            // is a compact and contiguous part of a larger tree
+            Schema s_compact;
+            node.schema().compact_to(s_compact);
+            bcast_buffers["schema"] = s_compact.to_json();
         }
         else
         {
-- 
2.43.0


From e72b1830ac3a1184ba1ddf333ff5ddbef5f08229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:16 +0000
Subject: [PATCH 40/43] fix: mpi::broadcast_using_schema into a larger
 compatible leaf

A receiver whose leaf held more elements than the one broadcast posted its
own size, which does not match the root's and may exceed the temporary
buffer. Use the size described by the received schema.
---
 src/libs/relay/conduit_relay_mpi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index b131209..f0ab455 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -1899,7 +1899,8 @@ broadcast_using_schema(Node &node,
         {
             
             bcast_data_ptr  = node.contiguous_data_ptr();
-            bcast_data_size = static_cast<int>(node.total_bytes_compact());
+            // the size must match the root's, `node` may hold more elements
+            bcast_data_size = static_cast<int>(bcast_schema.total_bytes_compact());
             
             if( bcast_data_ptr == NULL ||
                 ! node.is_compact() )
-- 
2.43.0


From 5f8d047523b215f7aff028056b486a51cbcf39b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:16 +0000
Subject: [PATCH 41/43] fix: mpi::gather of a compact part of a larger tree

The base pointer of the larger tree was sent instead of the start of the
node's own data.
---
 src/libs/relay/conduit_relay_mpi.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index f0ab455..b50984c 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -1356,7 +1356,6 @@ gather(Node &send_node,
     if(snd_ptr != NULL && 
        send_node.is_compact() )
     {
-        snd_ptr  = send_node.data_ptr();
         snd_size = send_node.total_bytes_compact();
     }
     else
-- 
2.43.0


From 5953df2d8907e0b6c0754de6f6276881847f3a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:16 +0000
Subject: [PATCH 42/43] fix: mpi::reduce and all_reduce of a compact leaf with
 an offset

The base pointer of the leaf's buffer was used instead of the address of its
first element.
---
 src/libs/relay/conduit_relay_mpi.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index b50984c..8b688ab 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -838,7 +838,8 @@ reduce(const Node &snd_node,
     // we can only reduce leaf types 
     if(snd_node.is_compact())
     {
-        snd_ptr = const_cast<void*>(snd_node.data_ptr());
+        // account for the offset of a leaf inside a larger buffer
+        snd_ptr = const_cast<void*>(snd_node.element_ptr(0));
     }
     else
     {
@@ -917,7 +918,8 @@ all_reduce(const Node &snd_node,
     // we can only reduce leaf types 
     if(snd_node.is_compact())
     {
-        snd_ptr = const_cast<void*>(snd_node.data_ptr());
+        // account for the offset of a leaf inside a larger buffer
+        snd_ptr = const_cast<void*>(snd_node.element_ptr(0));
     }
     else
     {
-- 
2.43.0


From b6d104d4a74a6b1d3510d1dabc830d0ed9878b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:07 +0000
Subject: [PATCH 43/43] fix: overflow in the search for the largest MPI tag

low + high overflowed once low passed half the int range, so tags above
2^30 were all mapped to the same tag, and messages sent with different tags
could be received for one another.
---
 src/libs/relay/conduit_relay_mpi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index 8b688ab..7c972ac 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -440,7 +440,8 @@ private:
             int rank;
             MPI_Comm_rank(comm, &rank);
 
-            tag = (low + high) / 2;
+            // note: low + high may overflow
+            tag = low + (high - low) / 2;
 
             // Try sending with the current tag.
             int srcBuff = 0;
-- 
2.43.0

