From fbc15e3640beb04bf260d3411254870dfd2a6d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 01/78] fix: parallel merge sort must not lose elements when
 the comparator fails

---
 .../linear_data_structures/algorithms.py      | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index eebb93f..c499b8b 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -40,29 +40,32 @@ def _merge(array, sl, el, sr, er, end, comp):
     for i in range(sl, el + 1):
         if i <= end:
             l.append(array[i])
-            array[i] = None
     for i in range(sr, er + 1):
         if i <= end:
             r.append(array[i])
-            array[i] = None
-    i, j, k = 0, 0, sl
+    # All the comparisons are made before the array is written to
+    # so that no element is lost if the comparator fails.
+    merged = []
+    i, j = 0, 0
     while i < len(l) and j < len(r):
         if _comp(l[i], r[j], comp):
-            array[k] = l[i]
+            merged.append(l[i])
             i += 1
         else:
-            array[k] = r[j]
+            merged.append(r[j])
             j += 1
-        k += 1
 
     while i < len(l):
-        array[k] = l[i]
+        merged.append(l[i])
         i += 1
-        k += 1
 
     while j < len(r):
-        array[k] = r[j]
+        merged.append(r[j])
         j += 1
+
+    k = sl
+    for element in merged:
+        array[k] = element
         k += 1
 
 def merge_sort_parallel(array, num_threads, **kwargs):
-- 
2.43.0


From 01bc168c6413eae2b17c02f8edaf7ce9842dd3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 02/78] fix: parallel merge sort of an empty range raised
 ValueError

---
 pydatastructs/linear_data_structures/algorithms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index c499b8b..55a5b6d 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -123,6 +123,8 @@ def merge_sort_parallel(array, num_threads, **kwargs):
     start = kwargs.get('start', 0)
     end = kwargs.get('end', len(array) - 1)
     comp = kwargs.get("comp", lambda u, v: u <= v)
+    if end < start:
+        return None
     for size in range(floor(log(end - start + 1, 2)) + 1):
         pow_2 = 2**size
         with ThreadPoolExecutor(max_workers=num_threads) as Executor:
-- 
2.43.0


From 908fa5d95fd5db9ab7454ae1f083f0b88c3821dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 03/78] fix: brick sorts never ended on arrays with equal
 elements

---
 pydatastructs/linear_data_structures/algorithms.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 55a5b6d..b68d393 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -141,6 +141,11 @@ def merge_sort_parallel(array, num_threads, **kwargs):
     if _check_type(array, (DynamicArray, _arrays.DynamicOneDimensionalArray)):
         array._modify(True)
 
+def _out_of_order(u, v, comp):
+    # Elements which are equal as per comp (like, u <= v and v <= u)
+    # are in order, swapping them would never end.
+    return _comp(v, u, comp) and not _comp(u, v, comp)
+
 def brick_sort(array, **kwargs):
     """
     Implements Brick Sort / Odd Even sorting algorithm
@@ -196,11 +201,11 @@ def brick_sort(array, **kwargs):
     while is_sorted is False:
         is_sorted = True
         for i in range(start+1, end, 2):
-            if _comp(array[i+1], array[i], comp):
+            if _out_of_order(array[i], array[i+1], comp):
                 array[i], array[i+1] = array[i+1], array[i]
                 is_sorted = False
         for i in range(start, end, 2):
-            if _comp(array[i+1], array[i], comp):
+            if _out_of_order(array[i], array[i+1], comp):
                 array[i], array[i+1] = array[i+1], array[i]
                 is_sorted = False
 
@@ -208,7 +213,7 @@ def brick_sort(array, **kwargs):
         array._modify(True)
 
 def _brick_sort_swap(array, i, j, comp, is_sorted):
-    if _comp(array[j], array[i], comp):
+    if _out_of_order(array[i], array[j], comp):
         array[i], array[j] = array[j], array[i]
         is_sorted[0] = False
 
-- 
2.43.0


From 45d8a7fb6f7ab774906be5ece25ae0fcf27dda54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 04/78] fix: parallel matrix multiplication was wrong for
 non-square matrices

---
 pydatastructs/linear_data_structures/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index b68d393..34cda4d 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -435,7 +435,7 @@ def counting_sort(array: Array, **kwargs) -> Array:
 
 def _matrix_multiply_helper(m1, m2, row, col):
     s = 0
-    for i in range(len(m1)):
+    for i in range(len(m2)):
         s += m1[row][i] * m2[i][col]
     return s
 
@@ -490,7 +490,7 @@ def matrix_multiply_parallel(matrix_1, matrix_2, num_threads):
         raise ValueError("Matrix size mismatch: %s * %s"%(
         (row_matrix_1, col_matrix_1), (row_matrix_2, col_matrix_2)))
 
-    C = [[None for i in range(col_matrix_1)] for j in range(row_matrix_2)]
+    C = [[None for i in range(col_matrix_2)] for j in range(row_matrix_1)]
 
     with ThreadPoolExecutor(max_workers=num_threads) as Executor:
         for i in range(row_matrix_1):
-- 
2.43.0


From 22620f5d0c819e093365f32dbb8e2a603501257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 05/78] fix: parallel BFS visited vertices again and never
 ended on cyclic graphs

---
 pydatastructs/graphs/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 6c2182f..fb9d3f6 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -196,7 +196,7 @@ def _generate_layer(**kwargs):
     status = True
     if len(next_nodes) != 0:
         for next_node in next_nodes:
-            if visited.get(next_node, False) is False:
+            if visited.get(next_node.name, False) is False:
                 status = status and operation(curr_node, next_node.name, *op_args, **op_kwargs)
                 next_layer.add(next_node.name)
                 visited[next_node.name] = True
-- 
2.43.0


From 3a9992097e24206e27157962eb393d3aca76cbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 06/78] fix: parallel BFS ignored a false status unless the
 last vertex of a layer returned it

---
 pydatastructs/graphs/algorithms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index fb9d3f6..161b4d4 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -213,12 +213,13 @@ def _breadth_first_search_parallel_adjacency_list(
     layer = 0
     while len(layers[layer]) != 0:
         layers[layer+1] = set()
+        status = True
         with ThreadPoolExecutor(max_workers=num_threads) as Executor:
             for node in layers[layer]:
                 status = Executor.submit(
                          _generate_layer, args=
                          (graph, node, layers[layer+1], visited,
-                          operation, *args), kwargs=kwargs).result()
+                          operation, *args), kwargs=kwargs).result() and status
         layer += 1
         if not status:
             return None
-- 
2.43.0


From 217b38a1bc2732c4571d89ac19897e8312fa6cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 07/78] fix: spanning trees shared vertices with the graph and
 so had all of its adjacency

---
 pydatastructs/graphs/algorithms.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 161b4d4..6552d54 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -226,8 +226,13 @@ def _breadth_first_search_parallel_adjacency_list(
 
 _breadth_first_search_parallel_adjacency_matrix = _breadth_first_search_parallel_adjacency_list
 
+def _copy_vertex(vertex):
+    # The vertices of a spanning tree must not share
+    # adjacency with the vertices of the original graph.
+    return type(vertex)(vertex.name, vertex.data)
+
 def _generate_mst_object(graph):
-    mst = Graph(*[getattr(graph, str(v)) for v in graph.vertices])
+    mst = Graph(*[_copy_vertex(getattr(graph, str(v))) for v in graph.vertices])
     return mst
 
 def _sort_edges(graph, num_threads=None):
@@ -264,10 +269,10 @@ def _minimum_spanning_tree_prim_adjacency_list(graph):
     while not q.is_empty:
         v = q.pop()
         if not hasattr(mst, v):
-            mst.add_vertex(graph.__getattribute__(v))
+            mst.add_vertex(_copy_vertex(graph.__getattribute__(v)))
             if e.get(v, None) is not None:
                 edge = e[v]
-                mst.add_vertex(edge.target)
+                mst.add_vertex(_copy_vertex(edge.target))
                 mst.add_edge(edge.source.name, edge.target.name, edge.value)
                 mst.add_edge(edge.target.name, edge.source.name, edge.value)
             for w_node in graph.neighbors(v):
@@ -406,10 +411,10 @@ def _minimum_spanning_tree_parallel_prim_adjacency_list(graph, num_threads):
         q[idx].pop()
 
         if not hasattr(mst, v):
-            mst.add_vertex(graph.__getattribute__(v))
+            mst.add_vertex(_copy_vertex(graph.__getattribute__(v)))
             if e[idx].get(v, None) is not None:
                 edge = e[idx][v]
-                mst.add_vertex(edge.target)
+                mst.add_vertex(_copy_vertex(edge.target))
                 mst.add_edge(edge.source.name, edge.target.name, edge.value)
                 mst.add_edge(edge.target.name, edge.source.name, edge.value)
             for w_node in graph.neighbors(v):
-- 
2.43.0


From 5c5e2f9f88f391edfa8127c99b8766b138a361b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 08/78] fix: linked lists counted an element whose node could
 not be created

---
 pydatastructs/linear_data_structures/linked_lists.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index 09178da..a22aa72 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -261,10 +261,10 @@ class DoublyLinkedList(LinkedList):
         'insert_before', 'insert_at', 'extract']
 
     def insert_after(self, prev_node, key, data=None):
-        self.size += 1
         new_node = LinkedListNode(key, data,
                                  links=['next', 'prev'],
                                  addrs=[None, None])
+        self.size += 1
         new_node.next = prev_node.next
         if new_node.next is not None:
             new_node.next.prev = new_node
@@ -275,10 +275,10 @@ class DoublyLinkedList(LinkedList):
             self.tail = new_node
 
     def insert_before(self, next_node, key, data=None):
-        self.size += 1
         new_node = LinkedListNode(key, data,
                                  links=['next', 'prev'],
                                  addrs=[None, None])
+        self.size += 1
         new_node.prev = next_node.prev
         next_node.prev = new_node
         new_node.next = next_node
@@ -297,10 +297,10 @@ class DoublyLinkedList(LinkedList):
         if index > self.size:
             raise IndexError('%d index is out of range.'%(index))
 
-        self.size += 1
         new_node = LinkedListNode(key, data,
                                     links=['next', 'prev'],
                                     addrs=[None, None])
+        self.size += 1
         if self.size == 1:
             self.head, self.tail = \
                 new_node, new_node
@@ -411,10 +411,10 @@ class SinglyLinkedList(LinkedList):
         'extract']
 
     def insert_after(self, prev_node, key, data=None):
-        self.size += 1
         new_node = LinkedListNode(key, data,
                                  links=['next'],
                                  addrs=[None])
+        self.size += 1
         new_node.next = prev_node.next
         prev_node.next = new_node
 
@@ -431,10 +431,10 @@ class SinglyLinkedList(LinkedList):
         if index > self.size:
             raise IndexError('%d index is out of range.'%(index))
 
-        self.size += 1
         new_node = LinkedListNode(key, data,
                                     links=['next'],
                                     addrs=[None])
+        self.size += 1
         if self.size == 1:
             self.head, self.tail = \
                 new_node, new_node
-- 
2.43.0


From 5e948de65fe6cf4af8d51b531c3e79b0592caa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 09/78] fix: linked lists accepted negative indices that are
 out of range

---
 pydatastructs/linear_data_structures/linked_lists.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index a22aa72..a75d29a 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -115,7 +115,7 @@ class LinkedList(object):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         counter = 0
@@ -294,7 +294,7 @@ class DoublyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index > self.size:
+        if index < 0 or index > self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         new_node = LinkedListNode(key, data,
@@ -335,7 +335,7 @@ class DoublyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d is out of range.'%(index))
 
         self.size -= 1
@@ -428,7 +428,7 @@ class SinglyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index > self.size:
+        if index < 0 or index > self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         new_node = LinkedListNode(key, data,
@@ -465,7 +465,7 @@ class SinglyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d is out of range.'%(index))
 
         self.size -= 1
-- 
2.43.0


From 58579d5234b3ef248e141769203736f23c8b4a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 10/78] fix: circular lists were broken by a negative index
 which denotes the first element

---
 pydatastructs/linear_data_structures/linked_lists.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index a75d29a..97d429b 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -535,6 +535,8 @@ class SinglyCircularLinkedList(SinglyLinkedList):
             self.tail = prev_node.next
 
     def insert_at(self, index, key, data=None):
+        if -self.size <= index < 0:
+            index = self.size + index
         super(SinglyCircularLinkedList, self).insert_at(index, key, data)
         if self.size == 1:
             self.head.next = self.head
@@ -545,6 +547,8 @@ class SinglyCircularLinkedList(SinglyLinkedList):
             self.tail = new_node
 
     def extract(self, index):
+        if -self.size <= index < 0:
+            index = self.size + index
         node = super(SinglyCircularLinkedList, self).extract(index)
         if self.tail is None:
             self.head = None
@@ -609,6 +613,8 @@ class DoublyCircularLinkedList(DoublyLinkedList):
             self.head = next_node.prev
 
     def insert_at(self, index, key, data=None):
+        if -self.size <= index < 0:
+            index = self.size + index
         super(DoublyCircularLinkedList, self).\
             insert_at(index, key, data)
         if self.size == 1:
@@ -624,6 +630,8 @@ class DoublyCircularLinkedList(DoublyLinkedList):
             self.head.prev = new_node
 
     def extract(self, index):
+        if -self.size <= index < 0:
+            index = self.size + index
         node = super(DoublyCircularLinkedList, self).extract(index)
         if self.tail is None:
             self.head = None
-- 
2.43.0


From 81a93766a54bcad87ea90423f79888b92f7f0ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 11/78] fix: doubly circular list lost its backward link when
 the first element was extracted

---
 pydatastructs/linear_data_structures/linked_lists.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index 97d429b..ed1cb86 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -637,6 +637,7 @@ class DoublyCircularLinkedList(DoublyLinkedList):
             self.head = None
         elif index == 0:
             self.tail.next = self.head
+            self.head.prev = self.tail
         return node
 
 class SkipList(object):
-- 
2.43.0


From e6985fbe54ca29630c9661a44c05968504a89a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 12/78] fix: skip list was left inconsistent when a node of a
 tower could not be created

---
 .../linear_data_structures/linked_lists.py    | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index ed1cb86..170d74d 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -690,8 +690,9 @@ class SkipList(object):
                 'extract', '__str__', 'size']
 
     def _add_level(self):
-        self.tail = SkipNode(math.inf, next=None, down=self.tail)
-        self.head = SkipNode(-math.inf, next=self.tail, down=self.head)
+        tail = SkipNode(math.inf, next=None, down=self.tail)
+        self.head = SkipNode(-math.inf, next=tail, down=self.head)
+        self.tail = tail
         self._levels += 1
 
     @property
@@ -731,20 +732,25 @@ class SkipList(object):
             Any valid data to be stored in the node.
         """
         path = self._search(key)
-        tip = path[-1]
-        below = SkipNode(key=key, data=data, next=tip.next)
-        tip.next = below
         total_level = self._levels
         level = 1
+        # All the nodes are created before any of them is linked so that
+        # the skip list is left as it was if one of them can't be created.
+        tower = [SkipNode(key=key, data=data)]
+        head, tail = self.head, self.tail
         while random.getrandbits(1) % 2 == 0 and level <= total_level:
             if level == total_level:
-                self._add_level()
-                prev = self.head
-            else:
-                prev = path[total_level - 1 - level]
-            below = SkipNode(key=key, data=None, next=prev.next, down=below)
-            prev.next = below
+                tail = SkipNode(math.inf, next=None, down=self.tail)
+                head = SkipNode(-math.inf, next=tail, down=self.head)
+            tower.append(SkipNode(key=key, data=None, down=tower[-1]))
             level += 1
+        if level > total_level:
+            self.head, self.tail = head, tail
+            self._levels += 1
+            path.insert(0, head)
+        for prev, node in zip(reversed(path), tower):
+            node.next = prev.next
+            prev.next = node
         self._num_nodes += 1
 
     @property
-- 
2.43.0


From c3c3fd065a2dc01cdd38b28ad00282e0fa7e3e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 13/78] fix: skip list was unusable if its last level could not
 be created again

---
 pydatastructs/linear_data_structures/linked_lists.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index 170d74d..86c2c25 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -784,7 +784,7 @@ class SkipList(object):
             path[level].next = path[level].next.next
             level -= 1
         walk = self.head
-        while walk is not None:
+        while self._levels > 1:
             if walk.next is self.tail:
                 self._levels -= 1
                 self.head = walk.down
@@ -793,8 +793,6 @@ class SkipList(object):
             else:
                 break
         self._num_nodes -= 1
-        if self._levels == 0:
-            self._add_level()
         return return_node
 
     def __str__(self):
-- 
2.43.0


From 7c4482ee52c5113e40cfe66f3e129fb44beb501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 14/78] fix: array queue lost track of its ends when the array
 was contracted or could not grow

---
 .../miscellaneous_data_structures/queue.py    | 57 ++++++++-----------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/queue.py b/pydatastructs/miscellaneous_data_structures/queue.py
index 033ef9a..e05f42b 100644
--- a/pydatastructs/miscellaneous_data_structures/queue.py
+++ b/pydatastructs/miscellaneous_data_structures/queue.py
@@ -135,60 +135,49 @@ class ArrayQueue(Queue):
 
     def append(self, x):
         if self.is_empty:
-            self._front = 0
             self.items._dtype = type(x)
         self.items.append(x)
-        self._rear += 1
+        self._update_ends()
 
     def appendleft(self, x):
         self._double_ended_check()
-        temp = []
-        if self.is_empty:
-            self._front = 0
-            self._rear = -1
-        self.items._dtype = type(x)
-        temp.append(x)
-        for i in range(self._front, self._rear + 1):
+        temp = [x]
+        for i in range(self._front, self._front + self.items._num):
             temp.append(self.items._data[i])
-        self.items = DynamicOneDimensionalArray(type(temp[0]), temp)
-        self._rear += 1
+        self.items = DynamicOneDimensionalArray(type(x), temp)
+        self._update_ends()
 
     def popleft(self):
         if self.is_empty:
             raise IndexError("Queue is empty.")
         return_value = dc(self.items[self._front])
-        front_temp = self._front
-        if self._front == self._rear:
-            self._front = -1
-            self._rear = -1
-        else:
-            if (self.items._num - 1)/self.items._size < \
-                self.items._load_factor:
-                self._front = 0
-            else:
-                self._front += 1
-        self.items.delete(front_temp)
+        self.items.delete(self._front)
+        self._update_ends()
         return return_value
 
     def pop(self):
         self._double_ended_check()
+
         if self.is_empty:
             raise IndexError("Queue is empty.")
 
         return_value = dc(self.items[self._rear])
-        rear_temp = self._rear
-        if self._front == self._rear:
-            self._front = -1
-            self._rear = -1
-        else:
-            if (self.items._num - 1)/self.items._size < \
-                self.items._load_factor:
-                self._front = 0
-            else:
-                self._rear -= 1
-        self.items.delete(rear_temp)
+        self.items.delete(self._rear)
+        self._update_ends()
         return return_value
 
+    def _update_ends(self):
+        """
+        The elements are contiguous and the array may have
+        moved them, therefore both the ends follow from the
+        array.
+        """
+        if self.items._num == 0:
+            self._front = self._rear = -1
+        else:
+            self._rear = self.items._last_pos_filled
+            self._front = self._rear - self.items._num + 1
+
     @property
     def front(self):
         return self._front
@@ -206,7 +195,7 @@ class ArrayQueue(Queue):
 
     def __str__(self):
         _data = []
-        for i in range(self._front, self._rear + 1):
+        for i in range(self._front, self._front + self.items._num):
             _data.append(self.items._data[i])
         return str(_data)
 
-- 
2.43.0


From 88d5d69de1756a7669de51257fc74640def8d4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 15/78] fix: dynamic array lost an element when it could not be
 contracted

---
 pydatastructs/linear_data_structures/arrays.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 2e0c3fd..c2c29c1 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -407,16 +407,29 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
             self[self._last_pos_filled + 1] = el
         self._last_pos_filled += 1
         self._num += 1
-        self._modify()
+        try:
+            self._modify()
+        except BaseException:
+            self._num -= 1
+            self._last_pos_filled -= 1
+            self[self._last_pos_filled + 1] = None
+            raise
 
     def delete(self, idx):
         if idx <= self._last_pos_filled and idx >= 0 and \
             self[idx] is not None:
+            el, last_pos_filled = self[idx], self._last_pos_filled
             self[idx] = None
             self._num -= 1
             if self._last_pos_filled == idx:
                 self._last_pos_filled -= 1
-            return self._modify()
+            try:
+                return self._modify()
+            except BaseException:
+                self._num += 1
+                self._last_pos_filled = last_pos_filled
+                self[idx] = el
+                raise
 
     @property
     def size(self):
-- 
2.43.0


From 8ae084edf327842f1983c04d1401e97e842fb476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 16/78] fix: heaps were left out of order or lost an element
 when a comparison or an allocation failed

---
 pydatastructs/trees/heaps.py | 74 ++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 24 deletions(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 12133a6..6674a71 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -121,24 +121,51 @@ class DHeap(Heap):
         self.heap[idx2].key, self.heap[idx2].data = \
             idx1_key, idx1_data
 
-    def _heapify(self, i):
+    def _sift_down_path(self, i, key, last):
+        """
+        Positions, in the order of visit, through which
+        key has to move down from position i in a heap
+        whose last position is last.
+        """
+        path = []
         while True:
-            target = i
+            target, target_key = i, key
             l = self.d*i + 1
             r = self.d*i + self.d
 
-            for j in range(l, r+1):
-                if j <= self._last_pos_filled:
-                    target = j if self._comp(self.heap[j].key, self.heap[target].key) \
-                            else target
-                else:
-                    break
+            for j in range(l, min(r, last) + 1):
+                if self._comp(self.heap[j].key, target_key):
+                    target, target_key = j, self.heap[j].key
 
-            if target != i:
-                self._swap(target, i)
-                i = target
-            else:
+            if target == i:
+                return path
+            path.append(target)
+            i = target
+
+    def _sift_up_path(self, i, key):
+        """
+        Positions, in the order of visit, through which
+        key has to move up from position i.
+        """
+        path = []
+        while i != 0:
+            parent = (i - 1)//self.d
+            if self._comp(self.heap[parent].key, key):
                 break
+            path.append(parent)
+            i = parent
+        return path
+
+    def _move(self, i, path):
+        for target in path:
+            self._swap(target, i)
+            i = target
+
+    def _heapify(self, i):
+        if i > self._last_pos_filled:
+            return None
+        self._move(i, self._sift_down_path(i, self.heap[i].key,
+                                           self._last_pos_filled))
 
     def insert(self, key, data=None):
         """
@@ -158,18 +185,12 @@ class DHeap(Heap):
         None
         """
         new_node = TreeNode(key, data)
+        i = self._last_pos_filled + 1
+        path = self._sift_up_path(i, key)
         self.heap.append(new_node)
-        self._last_pos_filled += 1
-        i = self._last_pos_filled
+        self._last_pos_filled = i
         self.heap[i]._leftmost, self.heap[i]._rightmost = self.d*i + 1, self.d*i + self.d
-
-        while True:
-            parent = (i - 1)//self.d
-            if i == 0 or self._comp(self.heap[parent].key, self.heap[i].key):
-                break
-            else:
-                self._swap(i, parent)
-                i = parent
+        self._move(i, path)
 
     def extract(self):
         """
@@ -189,10 +210,15 @@ class DHeap(Heap):
             raise IndexError("Heap is empty.")
         else:
             element_to_be_extracted = TreeNode(self.heap[0].key, self.heap[0].data)
-            self._swap(0, self._last_pos_filled)
+            last_element = self.heap[self._last_pos_filled]
+            path = self._sift_down_path(0, last_element.key,
+                                        self._last_pos_filled - 1)
             self.heap.delete(self._last_pos_filled)
             self._last_pos_filled -= 1
-            self._heapify(0)
+            if self._last_pos_filled != -1:
+                self.heap[0].key, self.heap[0].data = \
+                    last_element.key, last_element.data
+            self._move(0, path)
             return element_to_be_extracted
 
     def __str__(self):
-- 
2.43.0


From c550e55ebfabcbf61de6d3798c77234507fdc474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 17/78] fix: binomial heap was broken when a comparison or an
 allocation failed

---
 pydatastructs/trees/heaps.py | 89 ++++++++++++++++++++++++++++--------
 1 file changed, 71 insertions(+), 18 deletions(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 6674a71..9f7ffc5 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -479,6 +479,28 @@ class BinomialHeap(Heap):
         """
         if not _check_type(other_heap, BinomialHeap):
             raise TypeError("Other heap is not of type BinomialHeap.")
+        trees = [(tree, tree.order, tree.root.parent,
+                  tree.root.children._last_pos_filled)
+                 for heap in (self, other_heap)
+                 for tree in heap.root_list if tree is not None]
+        try:
+            self.root_list = self._merged_root_list(other_heap)
+        except BaseException:
+            for tree, order, parent, last_child in trees:
+                children = tree.root.children
+                while children._last_pos_filled > last_child:
+                    children[children._last_pos_filled] = None
+                    children._last_pos_filled -= 1
+                    children._num -= 1
+                tree.order = order
+                tree.root.parent, tree.root.is_root = parent, True
+            raise
+
+    def _merged_root_list(self, other_heap):
+        """
+        Links the trees of both the heaps to each other
+        and returns the list of roots which remain.
+        """
         new_root_list = []
         i, j = 0, 0
         while (i < len(self.root_list)) and \
@@ -510,7 +532,7 @@ class BinomialHeap(Heap):
             new_tree = other_heap.root_list[j]
             self._merge_heap_last_new_tree(new_root_list, new_tree)
             j += 1
-        self.root_list = new_root_list
+        return new_root_list
 
     def insert(self, key, data=None):
         """
@@ -556,14 +578,29 @@ class BinomialHeap(Heap):
         """
         Deletes the node with minimum key.
         """
-        min_node, min_idx = self.find_minimum(get_index=True)
-        child_root_list = []
-        for k, child in enumerate(min_node.children):
-            if child is not None:
-                child_root_list.append(BinomialTree(root=child, order=k))
-        self.root_list.remove(self.root_list[min_idx])
-        child_heap = BinomialHeap(root_list=child_root_list)
-        self.merge(child_heap)
+        _, min_idx = self.find_minimum(get_index=True)
+        self._delete_root(min_idx)
+
+    def _delete_root(self, idx):
+        """
+        Deletes the root of the tree at the given index.
+        """
+        root = self.root_list[idx].root
+        root_list = self.root_list
+        try:
+            child_root_list = []
+            for k, child in enumerate(root.children):
+                if child is not None:
+                    child_root_list.append(BinomialTree(root=child, order=k))
+            child_heap = BinomialHeap(root_list=child_root_list)
+            self.root_list = root_list[:idx] + root_list[idx + 1:]
+            self.merge(child_heap)
+        except BaseException:
+            self.root_list = root_list
+            for child in root.children:
+                if child is not None:
+                    child.is_root = False
+            raise
 
     @property
     def is_empty(self):
@@ -585,14 +622,19 @@ class BinomialHeap(Heap):
         if node.key <= new_key:
             raise ValueError("The new key "
             "should be less than current node's key.")
+        ancestor, path = node, []
+        while ((not ancestor.is_root) and
+               (ancestor.parent.key > new_key)):
+            ancestor = ancestor.parent
+            path.append(ancestor)
         node.key = new_key
-        while ((not node.is_root) and
-               (node.parent.key > node.key)):
-            node.parent.key, node.key = \
-                node.key, node.parent.key
-            node.parent.data, node.data = \
-                node.data, node.parent.data
-            node = node.parent
+        self._swap_upwards(node, path)
+
+    def _swap_upwards(self, node, path):
+        for ancestor in path:
+            ancestor.key, node.key = node.key, ancestor.key
+            ancestor.data, node.data = node.data, ancestor.data
+            node = ancestor
 
     def delete(self, node):
         """
@@ -604,5 +646,16 @@ class BinomialHeap(Heap):
         node: BinomialTreeNode
             The node which is to be deleted.
         """
-        self.decrease_key(node, self.find_minimum().key - 1)
-        self.delete_minimum()
+        ancestor, path = node, []
+        while not ancestor.is_root:
+            ancestor = ancestor.parent
+            path.append(ancestor)
+        idx = [tree.root is ancestor
+               for tree in self.root_list].index(True)
+        self._swap_upwards(node, path)
+        try:
+            self._delete_root(idx)
+        except BaseException:
+            path = [node] + path
+            self._swap_upwards(path[-1], path[-2::-1])
+            raise
-- 
2.43.0


From 541459ac7388aae30a4229f8b7031a16be34f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 18/78] fix: binary trees never called a custom comparator

---
 pydatastructs/trees/binary_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 48446d1..9741145 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -70,7 +70,7 @@ class BinaryTree(object):
         root.is_root = True
         obj.root_idx = 0
         obj.tree, obj.size = ArrayForTrees(TreeNode, [root]), 1
-        obj.comparator = lambda key1, key2: key1 < key2 \
+        obj.comparator = (lambda key1, key2: key1 < key2) \
                         if comp is None else comp
         obj.is_order_statistic = is_order_statistic
         return obj
-- 
2.43.0


From 189987c7b70c4f933d514b119daa0a66c38adf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 19/78] fix: binary search tree was broken by compaction of its
 array, deletion of the root and roots other than index 0

---
 .../linear_data_structures/arrays.py          |  7 +-
 pydatastructs/trees/binary_trees.py           | 69 +++++++++++++------
 2 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index c2c29c1..59a37db 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -408,7 +408,7 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
         self._last_pos_filled += 1
         self._num += 1
         try:
-            self._modify()
+            return self._modify()
         except BaseException:
             self._num -= 1
             self._last_pos_filled -= 1
@@ -465,7 +465,10 @@ class ArrayForTrees(DynamicOneDimensionalArray):
     def _modify(self):
         if self._num/self._size < self._load_factor:
             new_indices = {}
-            arr_new = OneDimensionalArray(self._dtype, 2*self._num + 1)
+            try:
+                arr_new = OneDimensionalArray(self._dtype, 2*self._num + 1)
+            except MemoryError:
+                return None
             j = 0
             for i in range(self._last_pos_filled + 1):
                 if self[i] is not None:
diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 9741145..83a7cee 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -240,41 +240,57 @@ class BinarySearchTree(BinaryTree):
                 walk = self.tree[walk].parent
 
     def insert(self, key, data=None):
+        self._insert(key, data)
+
+    def _append_node(self, new_node):
+        """
+        Adds the node to the array and returns its index.
+        """
+        root_key = self.tree[self.root_idx].key
+        new_indices = self.tree.append(new_node)
+        if new_indices is not None:
+            self.root_idx = new_indices[root_key]
+        self.size += 1
+        return self.tree._last_pos_filled
+
+    def _insert(self, key, data=None):
+        """
+        Inserts the key and returns the index of its node.
+        """
         res = self.search(key)
         if res is not None:
             self.tree[res].data = data
-            return None
+            return res
         walk = self.root_idx
         if self.tree[walk].key is None:
             self.tree[walk].key = key
             self.tree[walk].data = data
-            return None
-        new_node, prev_node, flag = TreeNode(key, data), self.root_idx, True
-        while flag:
+            return walk
+        new_node, prev_node = TreeNode(key, data), self.root_idx
+        while True:
             if not self.comparator(key, self.tree[walk].key):
                 if self.tree[walk].right is None:
                     new_node.parent = prev_node
-                    self.tree.append(new_node)
-                    self.tree[walk].right = self.size
-                    self.size += 1
-                    flag = False
+                    new_idx = self._append_node(new_node)
+                    self.tree[new_node.parent].right = new_idx
+                    break
                 prev_node = walk = self.tree[walk].right
             else:
                 if self.tree[walk].left is None:
                     new_node.parent = prev_node
-                    self.tree.append(new_node)
-                    self.tree[walk].left = self.size
-                    self.size += 1
-                    flag = False
+                    new_idx = self._append_node(new_node)
+                    self.tree[new_node.parent].left = new_idx
+                    break
                 prev_node = walk = self.tree[walk].left
-        self._update_size(walk)
+        self._update_size(new_idx)
+        return new_idx
 
     def search(self, key, **kwargs):
         ret_parent = kwargs.get('parent', False)
         parent = None
         walk = self.root_idx
         if self.tree[walk].key is None:
-            return None
+            return (None, None) if ret_parent else None
         while walk is not None:
             if self.tree[walk].key == key:
                 break
@@ -379,9 +395,16 @@ class BinarySearchTree(BinaryTree):
 
     def delete(self, key, **kwargs):
         (walk, parent) = self.search(key, parent=True)
-        a = None
         if walk is None:
             return None
+        return self._delete_at(walk, parent, **kwargs)
+
+    def _delete_at(self, walk, parent, **kwargs):
+        """
+        Deletes the node at index walk whose parent is
+        at index parent.
+        """
+        a = None
         if self.tree[walk].left is None and \
             self.tree[walk].right is None:
             if parent is None:
@@ -439,10 +462,15 @@ class BinarySearchTree(BinaryTree):
                 self.tree[self.root_idx].data = self.tree[child].data
                 self.tree[self.root_idx].key = self.tree[child].key
                 self.tree[self.root_idx].parent = None
+                for grand_child in (self.tree[child].left, self.tree[child].right):
+                    if grand_child is not None:
+                        self.tree[grand_child].parent = self.root_idx
                 root_key = self.tree[self.root_idx].key
                 new_indices = self.tree.delete(child)
                 if new_indices is not None:
                     self.root_idx = new_indices[root_key]
+                a = self.root_idx
+                self._update_size(a)
             else:
                 if self.tree[parent].left == walk:
                     self.tree[parent].left = child
@@ -454,8 +482,6 @@ class BinarySearchTree(BinaryTree):
                                      self.tree[self.root_idx].key)
                 new_indices = self.tree.delete(walk)
                 if new_indices is not None:
-                    parent = new_indices[par_key]
-                    self.tree[child].parent = new_indices[par_key]
                     a = new_indices[par_key]
                     self.root_idx = new_indices[root_key]
                 self._update_size(a)
@@ -566,18 +592,17 @@ class BinarySearchTree(BinaryTree):
             if self.tree[node].key == key:
                 node_idx = node
                 break
-            if self.tree[node].left:
+            if self.tree[node].left is not None:
                 stack.push(self.tree[node].left)
-            if self.tree[node].right:
+            if self.tree[node].right is not None:
                 stack.push(self.tree[node].right)
 
         if node_idx == -1:
             return path
 
-        while node_idx != 0:
+        while node_idx is not None:
             path.append(node_idx)
             node_idx = self.tree[node_idx].parent
-        path.append(0)
         path.reverse()
 
         return path
@@ -612,7 +637,7 @@ class BinarySearchTree(BinaryTree):
         v_left = self.comparator(self.tree[v].key, \
             self.tree[curr_root].key)
 
-        while not (u_left ^ v_left):
+        while curr_root not in (u, v) and not (u_left ^ v_left):
             if u_left and v_left:
                 curr_root = self.tree[curr_root].left
             else:
-- 
2.43.0


From 0e1f474d58a4cd3787c4b3be621230dcb3066903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 20/78] fix: Cartesian trees lost the heap order when a key was
 inserted again and failed at a changed root

---
 pydatastructs/trees/binary_trees.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 83a7cee..f36c471 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -843,7 +843,7 @@ class CartesianTree(SelfBalancingBinaryTree):
     def _bubble_up(self, node_idx):
         node = self.tree[node_idx]
         parent_idx = self.tree[node_idx].parent
-        parent = self.tree[parent_idx]
+        parent = self.tree[parent_idx] if parent_idx is not None else None
         while (node.parent is not None) and (parent.priority > node.priority):
             if parent.right == node_idx:
                 self._left_rotate(parent_idx, node_idx)
@@ -856,9 +856,13 @@ class CartesianTree(SelfBalancingBinaryTree):
         if node.parent is None:
             self.tree[node_idx].is_root = True
 
-    def _trickle_down(self, node_idx):
+    def _trickle_down(self, node_idx, to_leaf=True):
         node = self.tree[node_idx]
         while node.left is not None or node.right is not None:
+            if not to_leaf and not any(
+                self.tree[child].priority < node.priority
+                for child in (node.left, node.right) if child is not None):
+                break
             if node.left is None:
                 self._left_rotate(node_idx, self.tree[node_idx].right)
             elif node.right is None:
@@ -870,32 +874,31 @@ class CartesianTree(SelfBalancingBinaryTree):
             node = self.tree[node_idx]
 
     def insert(self, key, priority, data=None):
-        super(CartesianTree, self).insert(key, data)
-        node_idx = super(CartesianTree, self).search(key)
-        node = self.tree[node_idx]
         new_node = CartesianTreeNode(key, priority, data)
+        node_idx = self._insert(key, data)
+        node = self.tree[node_idx]
         new_node.parent = node.parent
         new_node.left = node.left
         new_node.right = node.right
         self.tree[node_idx] = new_node
-        if node.is_root:
-            self.tree[node_idx].is_root = True
-        else:
-            self._bubble_up(node_idx)
+        self._bubble_up(node_idx)
+        self._trickle_down(node_idx, to_leaf=False)
 
     def delete(self, key, **kwargs):
         balancing_info = kwargs.get('balancing_info', False)
         node_idx = super(CartesianTree, self).search(key)
         if node_idx is not None:
             self._trickle_down(node_idx)
-            return super(CartesianTree, self).delete(key, balancing_info = balancing_info)
+            return self._delete_at(node_idx, self.tree[node_idx].parent,
+                                   balancing_info=balancing_info)
 
     def __str__(self):
         to_be_printed = ['' for i in range(self.tree._last_pos_filled + 1)]
         for i in range(self.tree._last_pos_filled + 1):
             if self.tree[i] is not None:
                 node = self.tree[i]
-                to_be_printed[i] = (node.left, node.key, node.priority, node.data, node.right)
+                priority = getattr(node, 'priority', None)
+                to_be_printed[i] = (node.left, node.key, priority, node.data, node.right)
         return str(to_be_printed)
 
 class Treap(CartesianTree):
-- 
2.43.0


From f6526acc84cd8ba6f5f13b52611c0577a6e555a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 21/78] fix: AVL tree was left unbalanced after compaction and
 failed on missing keys

---
 pydatastructs/trees/binary_trees.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index f36c471..8618bb0 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1057,8 +1057,8 @@ class AVLTree(SelfBalancingBinaryTree):
             walk = self.tree[walk].parent
 
     def insert(self, key, data=None):
-        super(AVLTree, self).insert(key, data)
-        self._balance_insertion(self.size - 1, self.tree[self.size-1].parent)
+        idx = self._insert(key, data)
+        self._balance_insertion(idx, self.tree[idx].parent)
 
     def _balance_deletion(self, start_idx, key):
         walk = start_idx
@@ -1085,6 +1085,8 @@ class AVLTree(SelfBalancingBinaryTree):
 
 
     def delete(self, key, **kwargs):
+        if self.search(key) is None:
+            return None
         a = super(AVLTree, self).delete(key, balancing_info=True)
         self._balance_deletion(a, key)
         return True
-- 
2.43.0


From 358fc128e3120cf664f44fe1551b81521efb2fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 22/78] fix: splay tree lost nodes on join and split

---
 pydatastructs/trees/binary_trees.py | 36 ++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 8618bb0..273ed9a 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1153,10 +1153,8 @@ class SplayTree(SelfBalancingBinaryTree):
             p = self.tree[x].parent
 
     def insert(self, key, x):
-        super(SelfBalancingBinaryTree, self).insert(key, x)
-        e, p = super(SelfBalancingBinaryTree, self).search(key, parent=True)
-        self.tree[self.size-1].parent = p
-        self.splay(e, p)
+        e = self._insert(key, x)
+        self.splay(e, self.tree[e].parent)
 
     def delete(self, x):
         e, p = super(SelfBalancingBinaryTree, self).search(x, parent=True)
@@ -1189,19 +1187,27 @@ class SplayTree(SelfBalancingBinaryTree):
             raise ValueError("Elements of %s aren't less "
                              "than that of %s"%(self, other))
         self.splay(maxm, self.tree[maxm].parent)
-        idx_update = self.tree._size
-        for node in other.tree:
+        idx_update = self.tree._last_pos_filled + 1
+        tree = ArrayForTrees(TreeNode, idx_update + other.tree._size)
+        for i in range(idx_update):
+            tree[i] = self.tree[i]
+        for i, node in enumerate(other.tree):
             if node is not None:
                 node_copy = TreeNode(node.key, node.data)
                 if node.left is not None:
                     node_copy.left = node.left + idx_update
                 if node.right is not None:
                     node_copy.right = node.right + idx_update
-                self.tree.append(node_copy)
-            else:
-                self.tree.append(node)
+                if node.parent is not None:
+                    node_copy.parent = node.parent + idx_update
+                tree[i + idx_update] = node_copy
+        tree._num = self.tree._num + other.tree._num
+        tree._last_pos_filled = tree._size - 1
+        self.tree = tree
+        self.size = tree._size
         self.tree[self.root_idx].right = \
             other.root_idx + idx_update
+        self.tree[other.root_idx + idx_update].parent = self.root_idx
 
     def split(self, x):
         """
@@ -1226,15 +1232,19 @@ class SplayTree(SelfBalancingBinaryTree):
         if e is None:
             return
         self.splay(e, p)
-        other = SplayTree(None, None)
+        other = SplayTree(None, None, self.comparator, self.is_order_statistic)
         if self.tree[self.root_idx].right is not None:
             traverse = BinaryTreeTraversal(self)
             elements = traverse.depth_first_search(order='pre_order', node=self.tree[self.root_idx].right)
             for i in range(len(elements)):
                 super(SelfBalancingBinaryTree, other).insert(elements[i].key, elements[i].data)
-            for j in range(len(elements) - 1, -1, -1):
-                e, p = super(SelfBalancingBinaryTree, self).search(elements[j].key, parent=True)
-                self.tree[e] = None
+            indices = [self.tree[self.root_idx].right]
+            for idx in indices:
+                indices.extend(child for child in (self.tree[idx].left,
+                               self.tree[idx].right) if child is not None)
+            for idx in indices:
+                self.tree[idx] = None
+                self.tree._num -= 1
             self.tree[self.root_idx].right = None
         return other
 
-- 
2.43.0


From 212c52f171fcf0e50f878d5ac008e286a958a04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 23/78] fix: red black tree lost its properties when a key was
 inserted again or its array was contracted

---
 pydatastructs/trees/binary_trees.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 273ed9a..666c2fb 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1360,10 +1360,11 @@ class RedBlackTree(SelfBalancingBinaryTree):
         self.tree[self.root_idx].color=0
 
     def insert(self, key, data=None):
-        super(RedBlackTree, self).insert(key, data)
-        node_idx = super(RedBlackTree, self).search(key)
-        node = self.tree[node_idx]
         new_node = RedBlackTreeNode(key, data)
+        node_idx = self._insert(key, data)
+        node = self.tree[node_idx]
+        if isinstance(node, RedBlackTreeNode):
+            return None
         new_node.parent = node.parent
         new_node.left = node.left
         new_node.right = node.right
@@ -1515,17 +1516,11 @@ class RedBlackTree(SelfBalancingBinaryTree):
     def _remove_node(self, node_idx):
         parent = self._get_parent(node_idx)
         a = parent
-        if self._is_leaf(node_idx):
-            par_key, root_key = (self.tree[parent].key, self.tree[self.root_idx].key)
-            new_indices = self.tree.delete(node_idx)
-            if new_indices is not None:
-                a = new_indices[par_key]
-                self.root_idx = new_indices[root_key]
-        elif self._has_one_child(node_idx):
-            child = self._replace_node(node_idx)
-            parent = self._get_parent(node_idx)
-            par_key, root_key = (self.tree[parent].key, self.tree[self.root_idx].key)
-            new_indices = self.tree.delete(node_idx)
+        par_key, root_key = (self.tree[parent].key, self.tree[self.root_idx].key)
+        new_indices = self.tree.delete(node_idx)
+        if new_indices is not None:
+            a = new_indices[par_key]
+            self.root_idx = new_indices[root_key]
         self._update_size(a)
 
     def _delete_root(self, node_idx, node_idx1):
@@ -1571,11 +1566,11 @@ class RedBlackTree(SelfBalancingBinaryTree):
             else:
                 self.tree[parent].right = walk1
             self.tree[walk1].parent = parent
-            a = self._remove_node(walk)
             if self.__walk1_walk_isblack(walk_original_color, walk1):
                 self.__fix_deletion(walk1)
             else:
                 self.tree[walk1].color = 0
+            self._remove_node(walk)
 
     def __two_child_case(self, node_idx):
         walk = node_idx
-- 
2.43.0


From 36395d9948c9b25b11ae6d61a10ff9f23c368db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 24/78] fix: LLVM sorts worked only for the first algorithm and
 type used in a process

---
 .../cpp/algorithms/llvm_algorithms.py         | 60 +++++++++----------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
index 56b548c..b80ac46 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
@@ -9,28 +9,23 @@ _SUPPORTED = {
 }
 
 _engines = {}
-_target_machine = None
 _fn_ptr_cache = {}
 
 def _cleanup():
-    global _engines, _target_machine, _fn_ptr_cache
     _engines.clear()
-    _target_machine = None
     _fn_ptr_cache.clear()
 
 atexit.register(_cleanup)
 
-def _ensure_target_machine():
-    global _target_machine
-    if _target_machine is not None:
-        return
-
+def _create_target_machine():
+    # An execution engine owns the target machine it
+    # is created with, hence each engine needs its own.
     try:
         binding.initialize_all_targets()
         binding.initialize_all_asmprinters()
 
         target = binding.Target.from_default_triple()
-        _target_machine = target.create_target_machine(opt=3)
+        return target.create_target_machine(opt=3)
     except Exception as e:
         raise RuntimeError(f"Failed to initialize LLVM target machine: {e}")
 
@@ -107,7 +102,7 @@ def _build_bubble_sort_ir(dtype: str) -> str:
     if isinstance(T, ir.IntType):
         should_swap = b.icmp_signed(">", val_j, val_jp1)
     else:
-        should_swap = b.fcmp_ordered(">", val_j, val_jp1, fastmath=True)
+        should_swap = b.fcmp_ordered(">", val_j, val_jp1)
 
     b.cbranch(should_swap, b_swap, b_inner_latch)
 
@@ -132,12 +127,12 @@ def _build_bubble_sort_ir(dtype: str) -> str:
     return str(mod)
 
 def _materialize(dtype: str) -> int:
-    _ensure_target_machine()
-
-    if dtype in _fn_ptr_cache:
-        return _fn_ptr_cache[dtype]
+    name = f"bubble_sort_{dtype}"
+    if name in _fn_ptr_cache:
+        return _fn_ptr_cache[name]
 
     try:
+        target_machine = _create_target_machine()
         llvm_ir = _build_bubble_sort_ir(dtype)
         mod = binding.parse_assembly(llvm_ir)
         mod.verify()
@@ -152,16 +147,16 @@ def _materialize(dtype: str) -> int:
         except AttributeError:
             pass
 
-        engine = binding.create_mcjit_compiler(mod, _target_machine)
+        engine = binding.create_mcjit_compiler(mod, target_machine)
         engine.finalize_object()
         engine.run_static_constructors()
 
-        addr = engine.get_function_address(f"bubble_sort_{dtype}")
+        addr = engine.get_function_address(name)
         if not addr:
-            raise RuntimeError(f"Failed to get address for bubble_sort_{dtype}")
+            raise RuntimeError(f"Failed to get address for {name}")
 
-        _fn_ptr_cache[dtype] = addr
-        _engines[dtype] = engine
+        _fn_ptr_cache[name] = addr
+        _engines[name] = engine
 
         return addr
 
@@ -211,16 +206,17 @@ def _build_selection_sort_ir(dtype: str) -> str:
     i_phi = b.phi(i32, name="i")
     i_phi.add_incoming(ir.Constant(i32, 0), b_entry)  # start at 0
 
+    j_start = b.add(i_phi, ir.Constant(i32, 1))
     cond_outer = b.icmp_signed("<", i_phi, n)
     b.cbranch(cond_outer, b_inner, b_exit)
 
     # Inner loop: find min index
     b.position_at_end(b_inner)
-    min_idx = b_phi = b_phi_i = b.phi(i32, name="min_idx")
+    min_idx = b.phi(i32, name="min_idx")
     min_idx.add_incoming(i_phi, b_outer)  # initial min_idx = i
 
     j_phi = b.phi(i32, name="j")
-    j_phi.add_incoming(b.add(i_phi, ir.Constant(i32, 1)), b_outer)
+    j_phi.add_incoming(j_start, b_outer)
 
     cond_inner = b.icmp_signed("<", j_phi, n)
     b.cbranch(cond_inner, b_inner_latch, b_swap)
@@ -239,19 +235,18 @@ def _build_selection_sort_ir(dtype: str) -> str:
     else:
         cmp = b.fcmp_ordered("<", arr_j_val, arr_min_val)
 
-    with b.if_then(cmp):
-        min_idx = j_phi  # update min_idx
+    min_next = b.select(cmp, j_phi, min_idx)  # update min_idx
 
     j_next = b.add(j_phi, ir.Constant(i32, 1))
     j_phi.add_incoming(j_next, b_inner_latch)
-    min_idx.add_incoming(min_idx, b_inner_latch)  # propagate current min_idx
+    min_idx.add_incoming(min_next, b_inner_latch)  # propagate current min_idx
     b.branch(b_inner)
 
     # Swap arr[i] and arr[min_idx]
     b.position_at_end(b_swap)
-    i64 = b.sext(i_phi, i64)
+    idx64 = b.sext(i_phi, i64)
     min64 = b.sext(min_idx, i64)
-    ptr_i = b.gep(arr, [i64], inbounds=True)
+    ptr_i = b.gep(arr, [idx64], inbounds=True)
     ptr_min = b.gep(arr, [min64], inbounds=True)
     val_i = b.load(ptr_i)
     val_min = b.load(ptr_min)
@@ -271,18 +266,17 @@ def _build_selection_sort_ir(dtype: str) -> str:
 
 
 def _materialize_selection(dtype: str) -> int:
-    _ensure_target_machine()
-
     name = f"selection_sort_{dtype}"
-    if dtype in _fn_ptr_cache:
-        return _fn_ptr_cache[dtype]
+    if name in _fn_ptr_cache:
+        return _fn_ptr_cache[name]
 
     try:
+        target_machine = _create_target_machine()
         llvm_ir = _build_selection_sort_ir(dtype)
         mod = binding.parse_assembly(llvm_ir)
         mod.verify()
 
-        engine = binding.create_mcjit_compiler(mod, _target_machine)
+        engine = binding.create_mcjit_compiler(mod, target_machine)
         engine.finalize_object()
         engine.run_static_constructors()
 
@@ -290,8 +284,8 @@ def _materialize_selection(dtype: str) -> int:
         if not addr:
             raise RuntimeError(f"Failed to get address for {name}")
 
-        _fn_ptr_cache[dtype] = addr
-        _engines[dtype] = engine
+        _fn_ptr_cache[name] = addr
+        _engines[name] = engine
         return addr
     except Exception as e:
         raise RuntimeError(f"Failed to materialize function for dtype {dtype}: {e}")
-- 
2.43.0


From 3eb4466e35053a198979aa22a2f8404c8d5171b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:32 +0000
Subject: [PATCH 25/78] fix: LLVM sorts worked only in the root directory of
 the repository

---
 .../cpp/algorithms/quadratic_time_sort.hpp    | 64 ++-----------------
 1 file changed, 4 insertions(+), 60 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
index 792c1a6..6e420e8 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
@@ -214,36 +214,8 @@ static PyObject* bubble_sort_llvm(PyObject* self, PyObject* args, PyObject* kwds
     }
 
     auto get_addr = [&](const char* dtype_str) -> PyObject* {
-        PyObject* sys = PyImport_ImportModule("sys");
-        PyObject* sys_path = PyObject_GetAttrString(sys, "path");
-        Py_DECREF(sys);
-
-        Py_ssize_t original_len = PyList_Size(sys_path);
-        if (original_len == -1) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        PyObject* path = PyUnicode_FromString("pydatastructs/linear_data_structures/_backend/cpp/algorithms");
-        if (!path) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        int append_result = PyList_Append(sys_path, path);
-        Py_DECREF(path);
-
-        if (append_result != 0) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        PyObject* mod = PyImport_ImportModule("llvm_algorithms");
-
-        if (PyList_SetSlice(sys_path, original_len, original_len + 1, NULL) != 0) {
-            PyErr_Clear();
-        }
-        Py_DECREF(sys_path);
+        PyObject* mod = PyImport_ImportModule(
+            "pydatastructs.linear_data_structures._backend.cpp.algorithms.llvm_algorithms");
         if (!mod) {
             return NULL;
         }
@@ -819,36 +791,8 @@ static PyObject* selection_sort_llvm(PyObject* self, PyObject* args, PyObject* k
     }
 
     auto get_addr = [&](const char* dtype_str) -> PyObject* {
-        PyObject* sys = PyImport_ImportModule("sys");
-        PyObject* sys_path = PyObject_GetAttrString(sys, "path");
-        Py_DECREF(sys);
-
-        Py_ssize_t original_len = PyList_Size(sys_path);
-        if (original_len == -1) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        PyObject* path = PyUnicode_FromString("pydatastructs/linear_data_structures/_backend/cpp/algorithms");
-        if (!path) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        int append_result = PyList_Append(sys_path, path);
-        Py_DECREF(path);
-
-        if (append_result != 0) {
-            Py_DECREF(sys_path);
-            return NULL;
-        }
-
-        PyObject* mod = PyImport_ImportModule("llvm_algorithms");
-
-        if (PyList_SetSlice(sys_path, original_len, original_len + 1, NULL) != 0) {
-            PyErr_Clear();
-        }
-        Py_DECREF(sys_path);
+        PyObject* mod = PyImport_ImportModule(
+            "pydatastructs.linear_data_structures._backend.cpp.algorithms.llvm_algorithms");
         if (!mod) {
             return NULL;
         }
-- 
2.43.0


From fc9c50db54cf0c660d38db12feaa43486a5216d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 26/78] fix: insertion, shell, heap and intro sort lost
 elements when a comparison failed

---
 .../linear_data_structures/algorithms.py      | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 34cda4d..c350933 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -340,12 +340,15 @@ def heapsort(array, **kwargs):
     for i in range(start, end+1):
         if array[i] is not None:
             h.insert(array[i])
-        array[i] = None
 
-    i = start
+    # The array is written to only after all the comparisons
+    # are made so that no element is lost if one of them fails.
+    elements = []
     while not h.is_empty:
-        array[i] = h.extract().key
-        i += 1
+        elements.append(h.extract().key)
+    elements.extend([None] * (end - start + 1 - len(elements)))
+    for i in range(start, end+1):
+        array[i] = elements[i - start]
 
     if _check_type(array, (DynamicArray, _arrays.DynamicOneDimensionalArray)):
         array._modify(True)
@@ -1533,8 +1536,11 @@ def insertion_sort(array, **kwargs):
         temp = array[i]
         j = i
         while j > start and not _comp(array[j - 1], temp, comp):
-            array[j] = array[j - 1]
             j -= 1
+        # Elements are moved only after all the comparisons are made
+        # so that none of them is lost if the comparator fails.
+        for k in range(i, j, -1):
+            array[k] = array[k - 1]
         array[j] = temp
 
     if _check_type(array, (DynamicArray, _arrays.DynamicOneDimensionalArray)):
@@ -1931,8 +1937,11 @@ def shell_sort(array, *args, **kwargs):
             temp = array[i]
             j = i
             while j >= start + gap and not _comp(array[j - gap], temp, comp):
-                array[j] = array[j - gap]
                 j -= gap
+            # Elements are moved only after all the comparisons are made
+            # so that none of them is lost if the comparator fails.
+            for k in range(i, j, -gap):
+                array[k] = array[k - gap]
             array[j] = temp
         gap //= 2
 
-- 
2.43.0


From df634c2dddfa9ee05cac3e8278f11579639b5561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 27/78] fix: bucket sort failed on values which are small,
 negative or missing

---
 .../linear_data_structures/algorithms.py      | 23 ++++++++-----------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index c350933..290e00c 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -573,21 +573,21 @@ def bucket_sort(array: Array, **kwargs) -> Array:
     start = kwargs.get('start', 0)
     end = kwargs.get('end', len(array) - 1)
 
-    #Find maximum value in the list and use length of the list to determine which value in the list goes into which bucket
-    max_value = None
-    for i in range(start, end+1):
-        if array[i] is not None:
-            max_value = array[i]
-
+    #Find range of the values in the list and use length of the list to determine which value in the list goes into which bucket
+    max_value, min_value = None, None
     count = 0
     for i in range(start, end+1):
         if array[i] is not None:
             count += 1
-            if array[i] > max_value:
+            if max_value is None or array[i] > max_value:
                 max_value = array[i]
+            if min_value is None or array[i] < min_value:
+                min_value = array[i]
 
     number_of_null_values = end - start + 1 - count
-    size = max_value // count
+    if count == 0:
+        return array
+    size = (max_value - min_value) // count + 1
 
     # Create n empty buckets where n is equal to the length of the input list
     buckets_list = [[] for _ in range(count)]
@@ -595,11 +595,8 @@ def bucket_sort(array: Array, **kwargs) -> Array:
     # Put list elements into different buckets based on the size
     for i in range(start, end + 1):
         if array[i] is not None:
-            j = array[i] // size
-            if j is not count:
-                buckets_list[j].append(array[i])
-            else:
-                buckets_list[count-1].append(array[i])
+            j = min(int((array[i] - min_value) // size), count - 1)
+            buckets_list[j].append(array[i])
 
     # Sort elements within the buckets using Insertion Sort
     for z in range(count):
-- 
2.43.0


From 6e238bcf8f2b488a7e14d6f9447d9e6542776c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 28/78] fix: radix sort failed if the first slot is empty and
 left empty slots among zeros

---
 pydatastructs/linear_data_structures/algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 290e00c..ee565e3 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1994,12 +1994,12 @@ def radix_sort(array, *args, **kwargs):
     end = int(kwargs.get('end', len(array) - 1))
 
     n = end - start + 1
-    max_val = array[start]
-    for i in range(start + 1, end + 1):
+    max_val = 0
+    for i in range(start, end + 1):
         if array[i] is not None and array[i] > max_val:
             max_val = array[i]
     exp = 1
-    while max_val // exp > 0:
+    while exp == 1 or max_val // exp > 0:
         count = [0] * 10
         output = [None] * n
 
-- 
2.43.0


From c4302e3bc04ef679bccbce3c9ee927ac72416ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:16 +0000
Subject: [PATCH 29/78] fix: quick sort was wrong for custom pivots and failed
 on empty ranges

---
 pydatastructs/linear_data_structures/algorithms.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index ee565e3..e9f6c43 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -400,7 +400,7 @@ def counting_sort(array: Array, **kwargs) -> Array:
     """
     raise_if_backend_is_not_python(
         counting_sort, kwargs.get('backend', Backend.PYTHON))
-    max_val, min_val = array[0], array[0]
+    max_val, min_val = None, None
     none_count = 0
     for i in range(len(array)):
         if array[i] is not None:
@@ -772,6 +772,11 @@ def quick_sort(array: Array, **kwargs) -> Array:
     def partition(low, high, pick_pivot_element):
         i = (low - 1)
         x = pick_pivot_element(low, high, array)
+        # The pivot has to be at the end of the partition.
+        for j in range(high, low - 1, -1):
+            if array[j] is x:
+                array[j], array[high] = array[high], array[j]
+                break
         for j in range(low , high):
             if _comp(array[j], x, comp) is True:
                 i = i + 1
@@ -783,8 +788,9 @@ def quick_sort(array: Array, **kwargs) -> Array:
     upper = kwargs.get('end', len(array) - 1)
     stack = Stack()
 
-    stack.push(lower)
-    stack.push(upper)
+    if lower < upper:
+        stack.push(lower)
+        stack.push(upper)
 
     while stack.is_empty is False:
         high = stack.pop()
-- 
2.43.0


From 82b6aeb14c92d059e12824f4fcfdfc70c3e4488c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 30/78] fix: C++ sorts broke on failing comparators, empty
 arrays, custom pivots and a pivot which is the minimum

---
 .../cpp/algorithms/quadratic_time_sort.hpp    | 46 +++++++++++++++----
 .../_backend/cpp/algorithms/quick_sort.hpp    | 40 ++++++++++++++--
 pydatastructs/utils/_backend/cpp/utils.hpp    | 10 ++--
 3 files changed, 77 insertions(+), 19 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
index 6e420e8..24c229c 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
@@ -11,12 +11,16 @@
 // Bubble Sort
 static PyObject* bubble_sort_impl(PyObject* array, size_t lower, size_t upper,
     PyObject* comp, size_t arr_length) {
-    for (size_t i = 0; i < arr_length - 1; i++) {
+    for (size_t i = 0; i + 1 < arr_length; i++) {
         for (size_t j = lower; j < upper; j++) {
             PyObject* j_PyObject = PyLong_FromSize_t(j);
             PyObject* j1_PyObject = PyLong_FromSize_t(j+1);
-            if ( _comp(PyObject_GetItem(array, j_PyObject),
-                        PyObject_GetItem(array, j1_PyObject), comp) != 1 ) {
+            int comp_result = _comp(PyObject_GetItem(array, j_PyObject),
+                        PyObject_GetItem(array, j1_PyObject), comp);
+            if ( comp_result == -1 ) {
+                return NULL;
+            }
+            if ( comp_result != 1 ) {
                 PyObject* tmp = PyObject_GetItem(array, j1_PyObject);
                 PyObject_SetItem(array, j1_PyObject,
                                 PyObject_GetItem(array, j_PyObject));
@@ -60,6 +64,9 @@ static PyObject* bubble_sort(PyObject* self, PyObject* args, PyObject* kwds) {
     arr_length = PyObject_Length(args0);
 
     args0 = bubble_sort_impl(args0, lower, upper, comp, arr_length);
+    if ( !args0 ) {
+        return NULL;
+    }
     if ( is_DynamicOneDimensionalArray ) {
         PyObject_CallMethod(args0, "_modify", "O", Py_True);
     }
@@ -592,8 +599,12 @@ static PyObject* selection_sort_impl(PyObject* array, size_t lower, size_t upper
         PyObject* i_PyObject = PyLong_FromSize_t(i);
         for (size_t j = i + 1; j < upper + 1; j++) {
             PyObject* j_PyObject = PyLong_FromSize_t(j);
-            if ( _comp(PyObject_GetItem(array, j_min_PyObject),
-                        PyObject_GetItem(array, j_PyObject), comp) != 1 ) {
+            int comp_result = _comp(PyObject_GetItem(array, j_min_PyObject),
+                        PyObject_GetItem(array, j_PyObject), comp);
+            if ( comp_result == -1 ) {
+                return NULL;
+            }
+            if ( comp_result != 1 ) {
                 j_min_PyObject = j_PyObject;
             }
         }
@@ -637,6 +648,9 @@ static PyObject* selection_sort(PyObject* self, PyObject* args, PyObject* kwds)
     }
 
     args0 = selection_sort_impl(args0, lower, upper, comp);
+    if ( !args0 ) {
+        return NULL;
+    }
     if ( is_DynamicOneDimensionalArray ) {
         PyObject_CallMethod(args0, "_modify", "O", Py_True);
     }
@@ -1169,12 +1183,23 @@ static PyObject* insertion_sort_impl(PyObject* array, size_t lower, size_t upper
         PyObject* i_PyObject = PyLong_FromSize_t(i);
         PyObject* temp = PyObject_GetItem(array, i_PyObject);
         size_t j = i;
-        while (j > lower && _comp(PyObject_GetItem(array, PyLong_FromSize_t(j-1)),
-                        temp, comp) != 1) {
-            PyObject_SetItem(array, PyLong_FromSize_t(j),
-                        PyObject_GetItem(array, PyLong_FromSize_t(j-1)));
+        while (j > lower) {
+            int comp_result = _comp(PyObject_GetItem(array, PyLong_FromSize_t(j-1)),
+                        temp, comp);
+            if ( comp_result == -1 ) {
+                return NULL;
+            }
+            if ( comp_result == 1 ) {
+                break;
+            }
             j -= 1;
         }
+        // Elements are moved only after all the comparisons are made
+        // so that none of them is lost if the comparator fails.
+        for (size_t k = i; k > j; k--) {
+            PyObject_SetItem(array, PyLong_FromSize_t(k),
+                        PyObject_GetItem(array, PyLong_FromSize_t(k-1)));
+        }
         PyObject_SetItem(array, PyLong_FromSize_t(j), temp);
     }
     return array;
@@ -1211,6 +1236,9 @@ static PyObject* insertion_sort(PyObject* self, PyObject* args, PyObject* kwds)
     }
 
     args0 = insertion_sort_impl(args0, lower, upper, comp);
+    if ( !args0 ) {
+        return NULL;
+    }
     if ( is_DynamicOneDimensionalArray ) {
         PyObject_CallMethod(args0, "_modify", "O", Py_True);
     }
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index f3ad0ed..a610b5c 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -15,19 +15,41 @@ static PyObject* call_pick_pivot_element(PyObject* pick_pivot_element,
         return PyObject_CallFunctionObjArgs(pick_pivot_element,
                                             PyLong_FromSize_t(low),
                                             high_PyObject,
-                                            array);
+                                            array, NULL);
     }
 
     return PyObject_GetItem(array, high_PyObject);
 }
 
+// Returns with an exception set if the elements can't be compared.
 static size_t quick_sort_partition(size_t low, size_t high,
     PyObject* pick_pivot_element, PyObject* comp, PyObject* array) {
     int64_t i = low - 1;
     PyObject* x = call_pick_pivot_element(pick_pivot_element, low, high, array);
+    if ( !x ) {
+        return low;
+    }
+    // The pivot has to be at the end of the partition.
+    for( size_t j = high + 1; j > low; j-- ) {
+        PyObject* j_PyObject = PyLong_FromSize_t(j - 1);
+        PyObject* item = PyObject_GetItem(array, j_PyObject);
+        if ( !item ) {
+            return low;
+        }
+        if ( item == x ) {
+            PyObject* last = PyLong_FromSize_t(high);
+            PyObject_SetItem(array, j_PyObject, PyObject_GetItem(array, last));
+            PyObject_SetItem(array, last, x);
+            break;
+        }
+    }
     for( size_t j = low; j < high; j++ ) {
         PyObject* j_PyObject = PyLong_FromSize_t(j);
-        if ( _comp(PyObject_GetItem(array, j_PyObject), x, comp) == 1 ) {
+        int comp_result = _comp(PyObject_GetItem(array, j_PyObject), x, comp);
+        if ( comp_result == -1 ) {
+            return low;
+        }
+        if ( comp_result == 1 ) {
             i = i + 1;
             PyObject* i_PyObject = PyLong_FromLongLong(i);
             PyObject* tmp = PyObject_GetItem(array, i_PyObject);
@@ -51,8 +73,10 @@ static PyObject* quick_sort_impl(PyObject* array, size_t lower, size_t upper,
     size_t low, high, p;
     std::stack<size_t> rstack;
 
-    rstack.push(lower);
-    rstack.push(upper);
+    if ( lower + 1 < upper + 1 ) {
+        rstack.push(lower);
+        rstack.push(upper);
+    }
 
     while ( !rstack.empty() ) {
         high = rstack.top();
@@ -61,7 +85,10 @@ static PyObject* quick_sort_impl(PyObject* array, size_t lower, size_t upper,
         rstack.pop();
         p = quick_sort_partition(low, high, pick_pivot_element,
                                  comp, array);
-        if ( p - 1 > low ) {
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
+        if ( p > low + 1 ) {
             rstack.push(low);
             rstack.push(p - 1);
         }
@@ -109,6 +136,9 @@ static PyObject* quick_sort(PyObject* self, PyObject* args, PyObject* kwds) {
     }
 
     args0 = quick_sort_impl(args0, lower, upper, comp, pick_pivot_element);
+    if ( !args0 ) {
+        return NULL;
+    }
     if ( is_DynamicOneDimensionalArray ) {
         PyObject_CallMethod(args0, "_modify", "O", Py_True);
     }
diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index 511c224..e62e5af 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -103,7 +103,11 @@ static int _check_type(PyObject* arg, PyTypeObject* type) {
     return strcmp(arg->ob_type->tp_name, type->tp_name) == 0;
 }
 
+// Returns -1 with an exception set if the objects can't be compared.
 static int _comp(PyObject* u, PyObject* v, PyObject* tcomp) {
+    if ( !u || !v ) {
+        return -1;
+    }
     int u_isNone = u == Py_None;
     int v_isNone = v == Py_None;
     if ( u_isNone && !v_isNone) {
@@ -118,11 +122,7 @@ static int _comp(PyObject* u, PyObject* v, PyObject* tcomp) {
     if ( tcomp ) {
         PyObject* result_PyObject = PyObject_CallFunctionObjArgs(tcomp, u, v, NULL);
         if ( !result_PyObject ) {
-            PyErr_Format(PyExc_ValueError,
-                "Unable to compare %s object with %s object.",
-                PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
-                PyObject_AsString(PyObject_Repr(PyObject_Type(v)))
-            );
+            return -1;
         }
         return result_PyObject == Py_True;
     }
-- 
2.43.0


From 02b612d373d109532b9f9ab0c61dd6319cf807b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 31/78] fix: sorting a dynamic array which has no elements
 failed

---
 .../_backend/cpp/arrays/DynamicOneDimensionalArray.hpp    | 8 +++-----
 pydatastructs/linear_data_structures/arrays.py            | 8 ++++----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
index 6715d45..f942277 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
@@ -97,16 +97,14 @@ static PyObject* DynamicOneDimensionalArray__modify(DynamicOneDimensionalArray *
     PyObject** _data = self->_one_dimensional_array->_data;
     long _size = (long) self->_one_dimensional_array->_size;
     if ( force == Py_True ) {
-        i = -1;
         j = _size - 1;
-        while ( _data[j] == Py_None) {
-            i--;
+        while ( j >= 0 && _data[j] == Py_None) {
             j--;
         }
-        self->_last_pos_filled = i + _size;
+        self->_last_pos_filled = j;
     }
 
-    if ( ((float) self->_num)/((float) _size) < self->_load_factor ) {
+    if ( _size && ((float) self->_num)/((float) _size) < self->_load_factor ) {
         long new_size = 2 * self->_num + 1;
         PyObject** arr_new = reinterpret_cast<PyObject**>(std::malloc(new_size * sizeof(PyObject*)));
         for( i = 0; i < new_size; i++ ) {
diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 59a37db..1a815b4 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -380,11 +380,11 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
         below load factor.
         """
         if force:
-            i = -1
-            while self._data[i] is None:
+            i = self._size - 1
+            while i >= 0 and self._data[i] is None:
                 i -= 1
-            self._last_pos_filled = i%self._size
-        if (self._num/self._size < self._load_factor):
+            self._last_pos_filled = i
+        if self._size and (self._num/self._size < self._load_factor):
             arr_new = OneDimensionalArray(self._dtype, 2*self._num + 1)
             j = 0
             for i in range(self._last_pos_filled + 1):
-- 
2.43.0


From 315e45bf04e9bd4f29239ca53da357467f643aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 32/78] fix: is_ordered was wrong for equal elements and across
 empty slots

---
 .../cpp/algorithms/misc_algorithms.hpp        | 37 +++++++++++++------
 .../linear_data_structures/algorithms.py      |  9 +++--
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
index 4527955..95ccd18 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
@@ -8,19 +8,31 @@
 #include "../../../../utils/_backend/cpp/utils.hpp"
 
 // is_ordered
-static bool is_ordered_impl(PyObject* array, size_t lower, size_t upper,
+static int is_ordered_impl(PyObject* array, size_t lower, size_t upper,
     PyObject* comp) {
-    for (size_t i = lower + 1; i < upper + 1; i++) {
-        PyObject* i_PyObject = PyLong_FromSize_t(i);
-        PyObject* i1_PyObject = PyLong_FromSize_t(i-1);
-        PyObject* i_item = PyObject_GetItem(array, i_PyObject);
-        PyObject* i1_item = PyObject_GetItem(array, i1_PyObject);
-        if (i_item == Py_None || i1_item == Py_None) continue;
-        if ( _comp(i_item, i1_item, comp) == 1 ) {
-            return false;
+    PyObject* previous = NULL;
+    for (size_t i = lower; i < upper + 1; i++) {
+        PyObject* item = PyObject_GetItem(array, PyLong_FromSize_t(i));
+        if ( !item ) {
+            return -1;
         }
+        if ( item == Py_None ) continue;
+        if ( previous ) {
+            // Elements which are equal as per comp are in order.
+            int comp_result = _comp(item, previous, comp);
+            if ( comp_result == 1 ) {
+                comp_result = _comp(previous, item, comp);
+                if ( comp_result == 0 ) {
+                    return 0;
+                }
+            }
+            if ( comp_result == -1 ) {
+                return -1;
+            }
+        }
+        previous = item;
     }
-    return true;
+    return 1;
 }
 
 static PyObject* is_ordered(PyObject* self, PyObject* args, PyObject* kwds) {
@@ -53,7 +65,10 @@ static PyObject* is_ordered(PyObject* self, PyObject* args, PyObject* kwds) {
         upper = PyLong_AsSize_t(end);
     }
 
-    bool _res = is_ordered_impl(args0, lower, upper, comp);
+    int _res = is_ordered_impl(args0, lower, upper, comp);
+    if ( _res == -1 ) {
+        return NULL;
+    }
     res = PyBool_FromLong(_res);
     Py_INCREF(res);
     return res;
diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index e9f6c43..4eb92af 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -933,11 +933,14 @@ def is_ordered(array, **kwargs):
     upper = kwargs.get('end', len(array) - 1)
     comp = kwargs.get("comp", lambda u, v: u <= v)
 
-    for i in range(lower + 1, upper + 1):
-        if array[i] is None or array[i - 1] is None:
+    previous = None
+    for i in range(lower, upper + 1):
+        if array[i] is None:
             continue
-        if comp(array[i], array[i - 1]):
+        # Elements which are equal as per comp are in order.
+        if previous is not None and _out_of_order(previous, array[i], comp):
             return False
+        previous = array[i]
     return True
 
 def upper_bound(array, value, **kwargs):
-- 
2.43.0


From 5aef0eb1965475a81b10bd4cc6c2b8ef06fb233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 33/78] fix: searches failed on empty ranges, failing
 comparisons and ranges which do not start at 0

---
 .../cpp/algorithms/misc_algorithms.hpp        | 42 ++++++++++++++-----
 .../linear_data_structures/algorithms.py      | 12 ++----
 2 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
index 95ccd18..0d3b391 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
@@ -103,9 +103,13 @@ static PyObject* linear_search(PyObject* self, PyObject* args, PyObject* kwds) {
     if ( value == NULL ) {
         PyErr_Format(PyExc_ValueError,
                 "Expected Value to be not NULL");
+        return NULL;
     }
     for (size_t i = lower;  i < upper + 1; i++) {
         u = PyObject_GetItem(args0, PyLong_FromSize_t(i));
+        if ( !u ) {
+            return NULL;
+        }
         int result = PyObject_RichCompareBool(u, value, Py_EQ);
         if ( result == -1 ) {
             PyErr_Format(PyExc_ValueError,
@@ -113,6 +117,7 @@ static PyObject* linear_search(PyObject* self, PyObject* args, PyObject* kwds) {
                 PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
                 PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
             );
+            return NULL;
         } else if (result == 1) {
             if (i == 0) {
                 res = PyZero;
@@ -161,6 +166,7 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
     if ( value == NULL ) {
         PyErr_Format(PyExc_ValueError,
                 "Expected Value to be not NULL");
+        return NULL;
     }
 
     int left = lower, right = upper;
@@ -168,6 +174,9 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
     {
         int middle = left/2 + right/2 + left % 2 * right % 2;
         u = PyObject_GetItem(args0, PyLong_FromSize_t(middle));
+        if ( !u ) {
+            return NULL;
+        }
         int result = PyObject_RichCompareBool(u, value, Py_EQ);
         if ( result == -1 ) {
             PyErr_Format(PyExc_ValueError,
@@ -175,6 +184,7 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
                 PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
                 PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
             );
+            return NULL;
         } else if (result == 1) {
             if (middle == 0) {
                 res = PyZero;
@@ -184,7 +194,11 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
             Py_INCREF(res);
             return res;
         }
-        if ( _comp(u, value, comp) == 1 ) {
+        int comp_result = _comp(u, value, comp);
+        if ( comp_result == -1 ) {
+            return NULL;
+        }
+        if ( comp_result == 1 ) {
             left = middle + 1;
         } else {
             right = middle - 1;
@@ -228,22 +242,27 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
     if ( value == NULL ) {
         PyErr_Format(PyExc_ValueError,
                 "Expected Value to be not NULL");
+        return NULL;
     }
-    int step = int(sqrt(double(upper - lower + 1)));
-    int prev = lower;
-    int element_pos = prev;
-    u = PyObject_GetItem(args0, PyLong_FromSize_t(element_pos));
-    while (element_pos <= upper && _comp(u, value, comp) == 1) {
-        prev = element_pos;
-        element_pos += step;
-        if (element_pos > upper) {
+    size_t step = size_t(sqrt(double(upper + 1 - lower)));
+    size_t prev = lower;
+    for (size_t element_pos = lower + step; element_pos < upper + 1; element_pos += step) {
+        int comp_result = _comp(PyObject_GetItem(args0, PyLong_FromSize_t(element_pos)),
+                                value, comp);
+        if ( comp_result == -1 ) {
+            return NULL;
+        }
+        if ( comp_result != 1 ) {
             break;
         }
-        u = PyObject_GetItem(args0, PyLong_FromSize_t(element_pos));
+        prev = element_pos;
     }
 
-    while (prev <= upper) {
+    while (prev < upper + 1) {
         u = PyObject_GetItem(args0, PyLong_FromSize_t(prev));
+        if ( !u ) {
+            return NULL;
+        }
         int result = PyObject_RichCompareBool(u, value, Py_EQ);
         if ( result == -1 ) {
             PyErr_Format(PyExc_ValueError,
@@ -251,6 +270,7 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
                 PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
                 PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
             );
+            return NULL;
         } else if (result == 1) {
             if (prev == 0) {
                 res = PyZero;
diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 4eb92af..110915c 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1004,8 +1004,6 @@ def upper_bound(array, value, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
     index = end
     inclusive_end = end - 1
-    if comp(value, array[start]):
-        index = start
     while start <= inclusive_end:
         mid = (start + inclusive_end)//2
         if not comp(value, array[mid]):
@@ -1077,8 +1075,6 @@ def lower_bound(array, value, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
     index = end
     inclusive_end = end - 1
-    if not comp(array[start], value):
-        index = start
     while start <= inclusive_end:
         mid = (start + inclusive_end)//2
         if comp(array[mid], value):
@@ -1755,14 +1751,12 @@ def jump_search(array, value, **kwargs):
     end = kwargs.get('end', len(array) - 1)
     comp = kwargs.get("comp", lambda u, v: u < v)
 
-    step = int(sqrt(end - start + 1))
-    current_position = step
+    step = int(sqrt(max(end - start + 1, 0)))
+    current_position = start + step
     prev = start
-    while comp(array[min(current_position, end)], value):
+    while current_position <= end and comp(array[current_position], value):
         prev = current_position
         current_position += step
-        if prev > end:
-            return None
     while prev <= min(current_position, end):
         if array[prev] == value:
             return prev
-- 
2.43.0


From 24aaed0cfc28e30eb31ed34594141645da04ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 34/78] fix: quick sort left the end of a dynamic array behind
 its last element when it failed

A failing comparator could leave the pivot behind the position recorded as
the last filled one, so later appends overwrote it.
---
 .../_backend/cpp/algorithms/quick_sort.hpp    | 10 +++++--
 .../linear_data_structures/algorithms.py      | 29 ++++++++++---------
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index a610b5c..5fc8e89 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -135,8 +135,14 @@ static PyObject* quick_sort(PyObject* self, PyObject* args, PyObject* kwds) {
         upper = PyLong_AsSize_t(end);
     }
 
-    args0 = quick_sort_impl(args0, lower, upper, comp, pick_pivot_element);
-    if ( !args0 ) {
+    if ( !quick_sort_impl(args0, lower, upper, comp, pick_pivot_element) ) {
+        if ( is_DynamicOneDimensionalArray ) {
+            // The pivot may be at the end of the array.
+            PyObject *type, *value, *traceback;
+            PyErr_Fetch(&type, &value, &traceback);
+            PyObject_CallMethod(args0, "_modify", "O", Py_True);
+            PyErr_Restore(type, value, traceback);
+        }
         return NULL;
     }
     if ( is_DynamicOneDimensionalArray ) {
diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 110915c..58a4e4c 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -792,19 +792,22 @@ def quick_sort(array: Array, **kwargs) -> Array:
         stack.push(lower)
         stack.push(upper)
 
-    while stack.is_empty is False:
-        high = stack.pop()
-        low = stack.pop()
-        p = partition(low, high, pick_pivot_element)
-        if p - 1 > low:
-            stack.push(low)
-            stack.push(p - 1)
-        if p + 1 < high:
-            stack.push(p + 1)
-            stack.push(high)
-
-    if _check_type(array, (DynamicArray, _arrays.DynamicOneDimensionalArray)):
-        array._modify(True)
+    try:
+        while stack.is_empty is False:
+            high = stack.pop()
+            low = stack.pop()
+            p = partition(low, high, pick_pivot_element)
+            if p - 1 > low:
+                stack.push(low)
+                stack.push(p - 1)
+            if p + 1 < high:
+                stack.push(p + 1)
+                stack.push(high)
+    finally:
+        # The pivot may be at the end of a dynamic array
+        # even if the comparator fails.
+        if _check_type(array, (DynamicArray, _arrays.DynamicOneDimensionalArray)):
+            array._modify(True)
 
     return array
 
-- 
2.43.0


From 4b62f101fed0d66589d1ca03d326dba517116d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 35/78] fix: dynamic arrays lost elements which were written to
 empty positions

Writing to an empty position or filling the array did not update the number
of elements and the last filled position, hence later appends overwrote such
elements and contractions dropped them or failed.
---
 .../linear_data_structures/arrays.py          | 34 ++++++++++++-------
 pydatastructs/trees/binary_trees.py           |  1 -
 pydatastructs/trees/heaps.py                  |  2 --
 3 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 1a815b4..bb03eb5 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -370,10 +370,27 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
 
     @classmethod
     def methods(cls):
-        return ['__new__', '_modify',
+        return ['__new__', '__setitem__', 'fill', '_modify',
         'append', 'delete', 'size',
         '__str__', '__reversed__']
 
+    def __setitem__(self, idx, elem):
+        was_filled = self._data[idx] is not None
+        super().__setitem__(idx, elem)
+        if idx < 0:
+            idx += self._size
+        is_filled = self._data[idx] is not None
+        self._num += is_filled - was_filled
+        if is_filled:
+            self._last_pos_filled = max(self._last_pos_filled, idx)
+        elif idx == self._last_pos_filled:
+            self._last_pos_filled -= 1
+
+    def fill(self, elem):
+        super().fill(elem)
+        self._num = self._size
+        self._last_pos_filled = self._size - 1
+
     def _modify(self, force=False):
         """
         Contracts the array if Num(T)/Size(T) falls
@@ -403,31 +420,24 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
             arr_new[self._last_pos_filled + 1] = el
             self._size = arr_new._size
             self._data = arr_new._data
+            self._last_pos_filled += 1
+            self._num += 1
         else:
             self[self._last_pos_filled + 1] = el
-        self._last_pos_filled += 1
-        self._num += 1
         try:
             return self._modify()
         except BaseException:
-            self._num -= 1
-            self._last_pos_filled -= 1
-            self[self._last_pos_filled + 1] = None
+            self[self._last_pos_filled] = None
             raise
 
     def delete(self, idx):
         if idx <= self._last_pos_filled and idx >= 0 and \
             self[idx] is not None:
-            el, last_pos_filled = self[idx], self._last_pos_filled
+            el = self[idx]
             self[idx] = None
-            self._num -= 1
-            if self._last_pos_filled == idx:
-                self._last_pos_filled -= 1
             try:
                 return self._modify()
             except BaseException:
-                self._num += 1
-                self._last_pos_filled = last_pos_filled
                 self[idx] = el
                 raise
 
diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 666c2fb..805806d 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1244,7 +1244,6 @@ class SplayTree(SelfBalancingBinaryTree):
                                self.tree[idx].right) if child is not None)
             for idx in indices:
                 self.tree[idx] = None
-                self.tree._num -= 1
             self.tree[self.root_idx].right = None
         return other
 
diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 9f7ffc5..5a55de4 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -490,8 +490,6 @@ class BinomialHeap(Heap):
                 children = tree.root.children
                 while children._last_pos_filled > last_child:
                     children[children._last_pos_filled] = None
-                    children._last_pos_filled -= 1
-                    children._num -= 1
                 tree.order = order
                 tree.root.parent, tree.root.is_root = parent, True
             raise
-- 
2.43.0


From 08a0b2008dd060edab12945fa7d2c686aa0f18cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 36/78] fix: one dimensional arrays modified the list of
 elements given by the caller

---
 .../linear_data_structures/arrays.py          | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index bb03eb5..dc5b97e 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -88,18 +88,12 @@ class OneDimensionalArray(Array):
         obj = Array.__new__(cls)
         obj._dtype = dtype
         if len(args) == 2:
-            if _check_type(args[0], list) and \
+            if _check_type(args[0], (list, tuple)) and \
                 _check_type(args[1], int):
-                for i in range(len(args[0])):
-                    if _check_type(args[0][i], dtype) is False:
-                        args[0][i] = dtype(args[0][i])
-                size, data = args[1], list(args[0])
-            elif _check_type(args[1], list) and \
+                size, data = args[1], cls._convert(dtype, args[0])
+            elif _check_type(args[1], (list, tuple)) and \
                 _check_type(args[0], int):
-                for i in range(len(args[1])):
-                    if _check_type(args[1][i], dtype) is False:
-                        args[1][i] = dtype(args[1][i])
-                size, data = args[0], list(args[1])
+                size, data = args[0], cls._convert(dtype, args[1])
             else:
                 raise TypeError("Expected type of size is int and "
                                 "expected type of data is list/tuple.")
@@ -114,17 +108,20 @@ class OneDimensionalArray(Array):
                 init = kwargs.get('init', None)
                 obj._data = [init for i in range(args[0])]
             elif _check_type(args[0], (list, tuple)):
-                for i in range(len(args[0])):
-                    if _check_type(args[0][i], dtype) is False:
-                        args[0][i] = dtype(args[0][i])
                 obj._size, obj._data = len(args[0]), \
-                                        list(args[0])
+                                        cls._convert(dtype, args[0])
             else:
                 raise TypeError("Expected type of size is int and "
                                 "expected type of data is list/tuple.")
 
         return obj
 
+    @staticmethod
+    def _convert(dtype, elements):
+        # The elements belong to the caller, hence are not modified.
+        return [elem if _check_type(elem, dtype) else dtype(elem)
+                for elem in elements]
+
     @classmethod
     def methods(cls):
         return ['__new__', '__getitem__',
-- 
2.43.0


From 7739238b4205975407156c256f21d164a6e0da1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 37/78] fix: multi dimensional arrays accepted indices which
 are out of range

An index was compared with the number of elements behind it rather than with
its dimension, so a write out of range changed another element.
---
 pydatastructs/linear_data_structures/arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index dc5b97e..f9a892b 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -260,7 +260,8 @@ class MultiDimensionalArray(Array):
         indices = [indices] if isinstance(indices, int) else indices
         if len(indices) != len(self._sizes) - 1:
             raise IndexError("Shape mismatch, current shape is %s" % str(self.shape))
-        if any(indices[i] >= self._sizes[i] for i in range(len(indices))):
+        if any(index < 0 or index >= dimension
+               for index, dimension in zip(indices, self.shape)):
             raise IndexError("Index out of range.")
 
     def fill(self, element) -> None:
-- 
2.43.0


From ed39f4acb559dbf197c2bdc61b7979c384c320c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 38/78] fix: dynamic arrays counted empty elements which were
 appended and lost track of a failed append

---
 pydatastructs/linear_data_structures/arrays.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index f9a892b..18f1790 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -411,21 +411,22 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
             self._size = arr_new._size
 
     def append(self, el):
-        if self._last_pos_filled + 1 == self._size:
+        idx = self._last_pos_filled + 1
+        if idx == self._size:
             arr_new = OneDimensionalArray(self._dtype, 2*self._size + 1)
-            for i in range(self._last_pos_filled + 1):
+            for i in range(idx):
                 arr_new[i] = self[i]
-            arr_new[self._last_pos_filled + 1] = el
+            arr_new[idx] = el
             self._size = arr_new._size
             self._data = arr_new._data
-            self._last_pos_filled += 1
-            self._num += 1
+            self._num += el is not None
         else:
-            self[self._last_pos_filled + 1] = el
+            self[idx] = el
+        self._last_pos_filled = idx
         try:
             return self._modify()
         except BaseException:
-            self[self._last_pos_filled] = None
+            self[idx] = None
             raise
 
     def delete(self, idx):
-- 
2.43.0


From f74a7ecbd151aa170a53926bcb21e884dbeac8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 39/78] fix: C++ arrays ignored elements of the wrong type
 instead of raising an error

---
 pydatastructs/utils/_backend/cpp/utils.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index e62e5af..3975323 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -69,11 +69,10 @@ static PyObject* __str__(PyObject** array, size_t size, long last_pos_filled=-1)
 
 static int set_exception_if_dtype_mismatch(PyObject* value, PyObject* dtype) {
     if ( !PyObject_IsInstance(value, dtype) ) {
-        PyErr_WriteUnraisable(
-            PyErr_Format(PyExc_TypeError,
+        PyErr_Format(PyExc_TypeError,
             "Unable to store %s object in %s type array.",
             PyObject_AsString(PyObject_Repr(PyObject_Type(value))),
-            PyObject_AsString(PyObject_Repr(dtype))));
+            PyObject_AsString(PyObject_Repr(dtype)));
         return 1;
     }
     return 0;
-- 
2.43.0


From 803549202d568bb364fb68304272308580e11770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 40/78] fix: C++ arrays did not hold a reference to their
 initial value for every position

---
 .../_backend/cpp/arrays/OneDimensionalArray.hpp                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
index 92f885a..45e3c6c 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
@@ -182,6 +182,7 @@ static PyObject* OneDimensionalArray___new__(PyTypeObject* type, PyObject *args,
             }
 
             for (size_t i = 0; i < self->_size; i++) {
+                Py_INCREF(init);
                 self->_data[i] = init;
             }
 
-- 
2.43.0


From b2f6c1547411ac3c07b8091cea57630d7983e26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 41/78] fix: C++ arrays for trees kept their old size after
 they were contracted

---
 .../_backend/cpp/arrays/ArrayForTrees.hpp                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
index 4828fe7..39f7bef 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
@@ -126,7 +126,7 @@ static PyObject* ArrayForTrees__modify(ArrayForTrees *self,
         }
         self->_last_pos_filled = j - 1;
         self->_one_dimensional_array->_data = arr_new;
-        self->_size = new_size;
+        self->_one_dimensional_array->_size = new_size;
         self->_size = new_size;
 
         return new_indices;
-- 
2.43.0


From 7d490e76f86cbb6ee7994a41c4463c7d5c0316f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 42/78] fix: C++ dynamic arrays lost elements written to empty
 positions and crashed when memory ran out

---
 .../cpp/algorithms/quadratic_time_sort.hpp    | 15 +++--
 .../_backend/cpp/algorithms/quick_sort.hpp    |  5 +-
 .../cpp/arrays/DynamicOneDimensionalArray.hpp | 56 +++++++++++++++++--
 3 files changed, 63 insertions(+), 13 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
index 24c229c..c1004dd 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
@@ -67,8 +67,9 @@ static PyObject* bubble_sort(PyObject* self, PyObject* args, PyObject* kwds) {
     if ( !args0 ) {
         return NULL;
     }
-    if ( is_DynamicOneDimensionalArray ) {
-        PyObject_CallMethod(args0, "_modify", "O", Py_True);
+    if ( is_DynamicOneDimensionalArray &&
+         !PyObject_CallMethod(args0, "_modify", "O", Py_True) ) {
+        return NULL;
     }
     Py_INCREF(args0);
     return args0;
@@ -651,8 +652,9 @@ static PyObject* selection_sort(PyObject* self, PyObject* args, PyObject* kwds)
     if ( !args0 ) {
         return NULL;
     }
-    if ( is_DynamicOneDimensionalArray ) {
-        PyObject_CallMethod(args0, "_modify", "O", Py_True);
+    if ( is_DynamicOneDimensionalArray &&
+         !PyObject_CallMethod(args0, "_modify", "O", Py_True) ) {
+        return NULL;
     }
     Py_INCREF(args0);
     return args0;
@@ -1239,8 +1241,9 @@ static PyObject* insertion_sort(PyObject* self, PyObject* args, PyObject* kwds)
     if ( !args0 ) {
         return NULL;
     }
-    if ( is_DynamicOneDimensionalArray ) {
-        PyObject_CallMethod(args0, "_modify", "O", Py_True);
+    if ( is_DynamicOneDimensionalArray &&
+         !PyObject_CallMethod(args0, "_modify", "O", Py_True) ) {
+        return NULL;
     }
     Py_INCREF(args0);
     return args0;
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index 5fc8e89..6dabad5 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -145,8 +145,9 @@ static PyObject* quick_sort(PyObject* self, PyObject* args, PyObject* kwds) {
         }
         return NULL;
     }
-    if ( is_DynamicOneDimensionalArray ) {
-        PyObject_CallMethod(args0, "_modify", "O", Py_True);
+    if ( is_DynamicOneDimensionalArray &&
+         !PyObject_CallMethod(args0, "_modify", "O", Py_True) ) {
+        return NULL;
     }
     Py_INCREF(args0);
     return args0;
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
index f942277..3d8f190 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
@@ -66,11 +66,37 @@ static PyObject* DynamicOneDimensionalArray___getitem__(DynamicOneDimensionalArr
 
 static int DynamicOneDimensionalArray___setitem__(DynamicOneDimensionalArray *self,
                                                   PyObject* arg, PyObject* value) {
-    return OneDimensionalArray___setitem__(self->_one_dimensional_array, arg, value);
+    long idx = -1;
+    if ( PyLong_Check(arg) ) {
+        idx = PyLong_AsLong(arg);
+        PyErr_Clear();
+    }
+    long _size = (long) self->_one_dimensional_array->_size;
+    int was_filled = idx >= 0 && idx < _size &&
+                     self->_one_dimensional_array->_data[idx] != Py_None;
+    if ( OneDimensionalArray___setitem__(self->_one_dimensional_array, arg, value) == -1 ) {
+        return -1;
+    }
+    int is_filled = value != Py_None;
+    self->_num += is_filled - was_filled;
+    if ( is_filled ) {
+        if ( idx > self->_last_pos_filled ) {
+            self->_last_pos_filled = idx;
+        }
+    } else if ( idx == self->_last_pos_filled ) {
+        self->_last_pos_filled -= 1;
+    }
+    return 0;
 }
 
 static PyObject* DynamicOneDimensionalArray_fill(DynamicOneDimensionalArray *self, PyObject *args) {
-    return OneDimensionalArray_fill(self->_one_dimensional_array, args);
+    PyObject* result = OneDimensionalArray_fill(self->_one_dimensional_array, args);
+    if ( result ) {
+        self->_num = PyTuple_GetItem(args, 0) == Py_None ?
+                     0 : (long) self->_one_dimensional_array->_size;
+        self->_last_pos_filled = self->_num - 1;
+    }
+    return result;
 }
 
 static Py_ssize_t DynamicOneDimensionalArray___len__(DynamicOneDimensionalArray *self) {
@@ -107,6 +133,9 @@ static PyObject* DynamicOneDimensionalArray__modify(DynamicOneDimensionalArray *
     if ( _size && ((float) self->_num)/((float) _size) < self->_load_factor ) {
         long new_size = 2 * self->_num + 1;
         PyObject** arr_new = reinterpret_cast<PyObject**>(std::malloc(new_size * sizeof(PyObject*)));
+        if ( !arr_new ) {
+            return PyErr_NoMemory();
+        }
         for( i = 0; i < new_size; i++ ) {
             Py_INCREF(Py_None);
             arr_new[i] = Py_None;
@@ -140,6 +169,9 @@ static PyObject* DynamicOneDimensionalArray_append(DynamicOneDimensionalArray *s
     if ( self->_last_pos_filled + 1 == _size ) {
         long new_size = 2 * _size + 1;
         PyObject** arr_new = reinterpret_cast<PyObject**>(std::malloc(new_size * sizeof(PyObject*)));
+        if ( !arr_new ) {
+            return PyErr_NoMemory();
+        }
         long i;
         for( i = 0; i <= self->_last_pos_filled; i++ ) {
             arr_new[i] = _data[i];
@@ -155,8 +187,14 @@ static PyObject* DynamicOneDimensionalArray_append(DynamicOneDimensionalArray *s
         _data[self->_last_pos_filled + 1] = el;
     }
     self->_last_pos_filled += 1;
-    self->_num += 1;
-    return DynamicOneDimensionalArray__modify(self, NULL);
+    self->_num += el != Py_None;
+    PyObject* result = DynamicOneDimensionalArray__modify(self, NULL);
+    if ( !result ) {
+        self->_one_dimensional_array->_data[self->_last_pos_filled] = Py_None;
+        self->_last_pos_filled -= 1;
+        self->_num -= el != Py_None;
+    }
+    return result;
 }
 
 static PyObject* DynamicOneDimensionalArray_delete(DynamicOneDimensionalArray *self,
@@ -173,12 +211,20 @@ static PyObject* DynamicOneDimensionalArray_delete(DynamicOneDimensionalArray *s
     PyObject** _data = self->_one_dimensional_array->_data;
     if ( idx <= self->_last_pos_filled && idx >= 0 &&
         _data[idx] != Py_None ) {
+        PyObject* el = _data[idx];
+        long _last_pos_filled = self->_last_pos_filled;
         _data[idx] = Py_None;
         self->_num -= 1;
         if ( self->_last_pos_filled == idx ) {
             self->_last_pos_filled -= 1;
         }
-        return DynamicOneDimensionalArray__modify(self, NULL);
+        PyObject* result = DynamicOneDimensionalArray__modify(self, NULL);
+        if ( !result ) {
+            _data[idx] = el;
+            self->_num += 1;
+            self->_last_pos_filled = _last_pos_filled;
+        }
+        return result;
     }
 
     Py_RETURN_NONE;
-- 
2.43.0


From 6e33f38861054a82bdf5cd6f73cea433763d9fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 43/78] fix: topological sorts removed the edges and vertices
 of the graph they sorted

---
 pydatastructs/graphs/algorithms.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 6552d54..eafd353 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1093,7 +1093,6 @@ def _kahn_adjacency_list(graph: Graph) -> list:
         n = S.popleft()
         L.append(n)
         for m in graph.neighbors(n):
-            graph.remove_edge(n, m.name)
             in_degree[m.name] -= 1
             if in_degree[m.name] == 0:
                 S.append(m.name)
@@ -1160,32 +1159,35 @@ def topological_sort_parallel(graph: Graph, algorithm: str, num_threads: int,
 
 def _kahn_adjacency_list_parallel(graph: Graph, num_threads: int) -> list:
     num_vertices = len(graph.vertices)
+    in_degree = {u: 0 for u in graph.vertices}
+    for u in graph.vertices:
+        for v in graph.neighbors(u):
+            in_degree[v.name] += 1
 
-    def _collect_source_nodes(graph: Graph) -> list:
+    def _collect_source_nodes(in_degree: dict) -> list:
         S = []
-        in_degree = {u: 0 for u in graph.vertices}
-        for u in graph.vertices:
-            for v in graph.neighbors(u):
-                in_degree[v.name] += 1
         for u in in_degree:
             if in_degree[u] == 0:
                 S.append(u)
         return list(S)
 
     def _job(graph: Graph, u: str):
-        for v in graph.neighbors(u):
-            graph.remove_edge(u, v.name)
+        return [v.name for v in graph.neighbors(u)]
 
     L = []
-    source_nodes = _collect_source_nodes(graph)
+    source_nodes = _collect_source_nodes(in_degree)
     while source_nodes:
+        jobs = []
         with ThreadPoolExecutor(max_workers=num_threads) as Executor:
             for node in source_nodes:
                 L.append(node)
-                Executor.submit(_job, graph, node)
+                jobs.append(Executor.submit(_job, graph, node))
         for node in source_nodes:
-            graph.remove_vertex(node)
-        source_nodes = _collect_source_nodes(graph)
+            in_degree.pop(node)
+        for job in jobs:
+            for v in job.result():
+                in_degree[v] -= 1
+        source_nodes = _collect_source_nodes(in_degree)
 
     if len(L) != num_vertices:
         raise ValueError("Graph is not acyclic.")
-- 
2.43.0


From 3d0bdc617b859a75aecc8b8a6cea8c2a3c81c653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 44/78] fix: Kosaraju's algorithm failed for vertices without
 incoming edges and used a wrong order

---
 pydatastructs/graphs/algorithms.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index eafd353..35a1640 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -503,6 +503,7 @@ def minimum_spanning_tree_parallel(graph, algorithm, num_threads, **kwargs):
 
 def _visit(graph, vertex, visited, incoming, L):
     stack = [vertex]
+    finished = set()
     while stack:
         top = stack[-1]
         if not visited.get(top, False):
@@ -514,7 +515,11 @@ def _visit(graph, vertex, visited, incoming, L):
                 if not visited.get(node.name, False):
                     stack.append(node.name)
         if top is stack[-1]:
-            L.append(stack.pop())
+            stack.pop()
+            # A vertex may have been pushed more than once.
+            if top not in finished:
+                finished.add(top)
+                L.append(top)
 
 def _assign(graph, u, incoming, assigned, component):
     stack = [u]
@@ -523,7 +528,7 @@ def _assign(graph, u, incoming, assigned, component):
         if not assigned.get(top, False):
             assigned[top] = True
             component.add(top)
-            for u in incoming[top]:
+            for u in incoming.get(top, []):
                 if not assigned.get(u, False):
                     stack.append(u)
         if top is stack[-1]:
-- 
2.43.0


From ff78e5f4e0301926bc5e50a25da2c91af55f991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 45/78] fix: Dijkstra's algorithm counted outdated entries of
 its queue as visited vertices

---
 pydatastructs/graphs/algorithms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 35a1640..254bb98 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -879,6 +879,8 @@ def _dijkstra_adjacency_list(graph: Graph, start: str, target: str):
         pq.push(vertex, dist[vertex])
     for _ in range(V):
         u = pq.pop()
+        while visited[u]:
+            u = pq.pop()
         visited[u] = True
         for v in graph.vertices:
             edge_str = u + '_' + v
-- 
2.43.0


From 787e76461494a743e1168571a00e3e4ed644fbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 46/78] fix: maximum flows were too small because flow was
 never sent back along an edge

---
 pydatastructs/graphs/algorithms.py | 61 ++++++++++++++++--------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 254bb98..58e5b9e 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1201,6 +1201,17 @@ def _kahn_adjacency_list_parallel(graph: Graph, num_threads: int) -> list:
     return L
 
 
+def _residual_edges(graph: Graph, node, flow_passed):
+    # Flow can also be sent back along the edges which end at the node.
+    capacities = {v.name: graph.get_edge(node, v.name).value
+                  for v in graph.neighbors(node)}
+    for (u, v), flow in flow_passed.items():
+        if u == node and flow < 0:
+            capacities.setdefault(v, 0)
+    return [(v, capacity - flow_passed.get((node, v), 0))
+            for v, capacity in capacities.items()]
+
+
 def _breadth_first_search_max_flow(graph: Graph, source_node, sink_node, flow_passed, for_dinic=False):
     bfs_queue = Queue()
     parent, currentPathC = {}, {}
@@ -1208,18 +1219,15 @@ def _breadth_first_search_max_flow(graph: Graph, source_node, sink_node, flow_pa
     bfs_queue.append(source_node)
     while len(bfs_queue) != 0:
         curr_node = bfs_queue.popleft()
-        next_nodes = graph.neighbors(curr_node)
-        if len(next_nodes) != 0:
-            for next_node in next_nodes:
-                capacity = graph.get_edge(curr_node, next_node.name).value
-                fp = flow_passed.get((curr_node, next_node.name), 0)
-                if capacity and parent.get(next_node.name, False) is False and capacity - fp > 0:
-                    parent[next_node.name] = curr_node
-                    next_flow = min(currentPathC[curr_node], capacity - fp)
-                    currentPathC[next_node.name] = next_flow
-                    if next_node.name == sink_node and not for_dinic:
-                        return (next_flow, parent)
-                    bfs_queue.append(next_node.name)
+        for next_node, residual in _residual_edges(graph, curr_node, flow_passed):
+            if next_node != source_node and \
+                parent.get(next_node, False) is False and residual > 0:
+                parent[next_node] = curr_node
+                next_flow = min(currentPathC[curr_node], residual)
+                currentPathC[next_node] = next_flow
+                if next_node == sink_node and not for_dinic:
+                    return (next_flow, parent)
+                bfs_queue.append(next_node)
     return (0, parent)
 
 
@@ -1245,23 +1253,18 @@ def _depth_first_search_max_flow_dinic(graph: Graph, u, parent, sink_node, flow,
     if u == sink_node:
         return flow
 
-    next_nodes = graph.neighbors(u)
-    if len(next_nodes) != 0:
-        for next_node in next_nodes:
-            capacity = graph.get_edge(u, next_node.name).value
-            fp = flow_passed.get((u, next_node.name), 0)
-            parent_cond = parent.get(next_node.name, None)
-            if parent_cond and parent_cond == u and capacity - fp > 0:
-                path_flow = _depth_first_search_max_flow_dinic(graph,
-                                                               next_node.name,
-                                                               parent, sink_node,
-                                min(flow, capacity - fp), flow_passed)
-                if path_flow > 0:
-                    fp = flow_passed.get((u, next_node.name), 0)
-                    flow_passed[(u, next_node.name)] = fp + path_flow
-                    fp = flow_passed.get((next_node.name, u), 0)
-                    flow_passed[(next_node.name, u)] = fp - path_flow
-                    return path_flow
+    for next_node, residual in _residual_edges(graph, u, flow_passed):
+        if parent.get(next_node, None) == u and residual > 0:
+            path_flow = _depth_first_search_max_flow_dinic(graph,
+                                                           next_node,
+                                                           parent, sink_node,
+                                min(flow, residual), flow_passed)
+            if path_flow > 0:
+                fp = flow_passed.get((u, next_node), 0)
+                flow_passed[(u, next_node)] = fp + path_flow
+                fp = flow_passed.get((next_node, u), 0)
+                flow_passed[(next_node, u)] = fp - path_flow
+                return path_flow
     return 0
 
 
-- 
2.43.0


From 51dc5d189c870b43a0a64707809c028a34e61fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:16 +0000
Subject: [PATCH 47/78] fix: Johnson's algorithm changed the weights of the
 graph it worked on

---
 pydatastructs/graphs/algorithms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 58e5b9e..b6d74a8 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -988,6 +988,12 @@ def _floyd_warshall_adjacency_list(graph: Graph):
 _floyd_warshall_adjacency_matrix = _floyd_warshall_adjacency_list
 
 def _johnson_adjacency_list(graph: Graph):
+    # The edges get other weights, the graph of the caller should keep its own.
+    original, graph = graph, Graph(
+        *[_copy_vertex(getattr(graph, v)) for v in graph.vertices])
+    for edge in original.edge_weights.values():
+        graph.add_edge(edge.source.name, edge.target.name, edge.value)
+
     new_vertex = AdjacencyListGraphNode('__q__')
     graph.add_vertex(new_vertex)
 
-- 
2.43.0


From 45c42cbdc54470b630e14d420eb2bc49d035e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:25 +0000
Subject: [PATCH 48/78] fix: C++ breadth first search ignored the status,
 keyword arguments and unknown sources

---
 pydatastructs/graphs/_backend/cpp/Algorithms.hpp | 12 ++++++++++++
 pydatastructs/graphs/algorithms.py               |  6 +++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index 2bb362c..dc6722e 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -25,6 +25,10 @@ static PyObject* breadth_first_search_adjacency_list(PyObject* self, PyObject* a
 
     AdjacencyListGraph* cpp_graph = reinterpret_cast<AdjacencyListGraph*>(graph_obj);
     auto it = cpp_graph->node_map.find(source_name);
+    if (it == cpp_graph->node_map.end()) {
+        PyErr_SetString(PyExc_KeyError, "Source node not found in graph");
+        return nullptr;
+    }
     AdjacencyListGraphNode* start_node = it->second;
     std::unordered_set<std::string> visited;
     std::queue<AdjacencyListGraphNode*> q;
@@ -70,7 +74,12 @@ static PyObject* breadth_first_search_adjacency_list(PyObject* self, PyObject* a
             if (!result)
                 return nullptr;
 
+            int status = PyObject_IsTrue(result);
             Py_DECREF(result);
+            if (status == -1)
+                return nullptr;
+            if (status == 0)
+                Py_RETURN_NONE;
             visited.insert(adj_name);
             q.push(adj_node);
         }
@@ -145,7 +154,10 @@ static PyObject* breadth_first_search_adjacency_matrix(PyObject* self, PyObject*
             PyObject* result = PyObject_Call(operation, final_args, kwargs_dict);
             Py_DECREF(final_args);
             if (!result) return nullptr;
+            int status = PyObject_IsTrue(result);
             Py_DECREF(result);
+            if (status == -1) return nullptr;
+            if (status == 0) Py_RETURN_NONE;
 
             visited.insert(adj_name);
             q.push(adj_node);
diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index b6d74a8..99ee022 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -81,7 +81,7 @@ def breadth_first_search(
     >>> G.add_edge(V2.name, V3.name)
     >>> breadth_first_search(G, V1.name, f, V3.name)
     """
-    backend = kwargs.get('backend', Backend.PYTHON)
+    backend = kwargs.pop('backend', Backend.PYTHON)
     if backend == Backend.PYTHON:
         import pydatastructs.graphs.algorithms as algorithms
         func = "_breadth_first_search_" + graph._impl
@@ -95,10 +95,10 @@ def breadth_first_search(
         from pydatastructs.graphs._backend.cpp._graph import bfs_adjacency_list, bfs_adjacency_matrix
         if (graph._impl == "adjacency_list"):
             extra_args = args if args else ()
-            return bfs_adjacency_list(graph, source_node, operation, extra_args)
+            return bfs_adjacency_list(graph, source_node, operation, extra_args, kwargs)
         if (graph._impl == "adjacency_matrix"):
             extra_args = args if args else ()
-            return bfs_adjacency_matrix(graph, source_node, operation, extra_args)
+            return bfs_adjacency_matrix(graph, source_node, operation, extra_args, kwargs)
 
 def _breadth_first_search_adjacency_list(
     graph, source_node, operation, *args, **kwargs):
-- 
2.43.0


From acef59f373a1d146101c9cf6dc4fcd7723d09e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 49/78] fix: interval trees changed their argument and broke
 when they were built by several threads

---
 .../trees/space_partitioning_trees.py         | 54 +++++++++----------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/pydatastructs/trees/space_partitioning_trees.py b/pydatastructs/trees/space_partitioning_trees.py
index f13c1f2..47f62d8 100644
--- a/pydatastructs/trees/space_partitioning_trees.py
+++ b/pydatastructs/trees/space_partitioning_trees.py
@@ -57,10 +57,7 @@ class OneDimensionalSegmentTree(object):
         if any((not isinstance(seg, (tuple, list, set)) or len(seg) != 2)
                 for seg in segs):
                     raise ValueError('%s is invalid set of intervals'%(segs))
-        for i in range(len(segs)):
-            segs[i] = list(segs[i])
-            segs[i].sort()
-        obj.segments = list(segs)
+        obj.segments = [sorted(seg) for seg in segs]
         obj.tree, obj.root_idx, obj.cache = [], None, False
         return obj
 
@@ -110,24 +107,24 @@ class OneDimensionalSegmentTree(object):
             return not ((not i1.key[3] and i2.key[3]) or (not i1.key[0] and i2.key[0]))
         return False
 
-    def _iterate(self, calls, I, idx):
+    def _iterate(self, tree, calls, I, idx):
         """
         Helper function for filling the calls
         stack. Used for imitating the stack based
         approach used in recursion.
         """
-        if self.tree[idx].right is None:
+        if tree[idx].right is None:
             rc = None
         else:
-            rc = self.tree[self.tree[idx].right]
-        if self.tree[idx].left is None:
+            rc = tree[tree[idx].right]
+        if tree[idx].left is None:
             lc = None
         else:
-            lc = self.tree[self.tree[idx].left]
+            lc = tree[tree[idx].left]
         if self._intersect(I, rc):
-            calls.append(self.tree[idx].right)
+            calls.append(tree[idx].right)
         if self._intersect(I, lc):
-            calls.append(self.tree[idx].left)
+            calls.append(tree[idx].left)
         return calls
 
     def build(self):
@@ -152,16 +149,18 @@ class OneDimensionalSegmentTree(object):
         elem_int.append(TreeNode([True, endpoints[i], endpoints[i], True], None))
         elem_int.append(TreeNode([False, endpoints[i], endpoints[i] + 1, False], None))
 
-        self.tree = []
+        # The tree is published once it is complete, since others
+        # may query it (and hence build it) at the same time.
+        tree = []
         while len(elem_int) > 1:
             m = len(elem_int)
             while m >= 2:
                 I1 = elem_int.popleft()
                 I2 = elem_int.popleft()
                 I = self._union(I1, I2)
-                I.left = len(self.tree)
-                I.right = len(self.tree) + 1
-                self.tree.append(I1), self.tree.append(I2)
+                I.left = len(tree)
+                I.right = len(tree) + 1
+                tree.append(I1), tree.append(I2)
                 elem_int.append(I)
                 m -= 2
             if m & 1 == 1:
@@ -170,20 +169,21 @@ class OneDimensionalSegmentTree(object):
 
         Ir = elem_int.popleft()
         Ir.left, Ir.right = -3, -2
-        self.tree.append(Ir)
-        self.root_idx = -1
+        tree.append(Ir)
+        root_idx = -1
 
         for segment in self.segments:
             I = TreeNode([True, segment[0], segment[1], True], None)
-            calls = [self.root_idx]
+            calls = [root_idx]
             while calls:
                 idx = calls.pop()
-                if self._contains(I, self.tree[idx]):
-                    if self.tree[idx].data is None:
-                        self.tree[idx].data = []
-                    self.tree[idx].data.append(I)
+                if self._contains(I, tree[idx]):
+                    if tree[idx].data is None:
+                        tree[idx].data = []
+                    tree[idx].data.append(I)
                     continue
-                calls = self._iterate(calls, I, idx)
+                calls = self._iterate(tree, calls, I, idx)
+        self.tree, self.root_idx = tree, root_idx
         self.cache = True
 
     def query(self, qx, init_node=None):
@@ -217,13 +217,13 @@ class OneDimensionalSegmentTree(object):
         if init_node is None:
             init_node = self.root_idx
         qn = TreeNode([True, qx, qx, True], None)
-        intervals = []
+        tree, intervals = self.tree, []
         calls = [init_node]
         while calls:
             idx = calls.pop()
-            if _check_type(self.tree[idx].data, list):
-                intervals.extend(self.tree[idx].data)
-            calls = self._iterate(calls, qn, idx)
+            if _check_type(tree[idx].data, list):
+                intervals.extend(tree[idx].data)
+            calls = self._iterate(tree, calls, qn, idx)
         return set(intervals)
 
     def __str__(self):
-- 
2.43.0


From efa9f85f1a00f143d33b0cf75f6c93012ef92bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 50/78] fix: segment trees were broken by failing functions and
 positions outside the array

---
 .../segment_tree.py                           | 53 ++++++++++---------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/segment_tree.py b/pydatastructs/miscellaneous_data_structures/segment_tree.py
index 0895ba6..0144b58 100644
--- a/pydatastructs/miscellaneous_data_structures/segment_tree.py
+++ b/pydatastructs/miscellaneous_data_structures/segment_tree.py
@@ -145,7 +145,7 @@ class OneDimensionalArraySegmentTree(ArraySegmentTree):
         recursion_stack = Stack(implementation='linked_list')
         node = TreeNode((0, len(self._array) - 1), None, backend=self._backend)
         node.is_root = True
-        self._root = node
+        root = node
         recursion_stack.push(node)
 
         while not recursion_stack.is_empty:
@@ -171,38 +171,41 @@ class OneDimensionalArraySegmentTree(ArraySegmentTree):
                     node.right = right_node
                     recursion_stack.push(right_node)
 
+        self._root = root
+
     def update(self, index, value):
         if not self.is_ready:
             raise ValueError("{} tree is not built yet. ".format(self) +
                              "Call .build method to prepare the segment tree.")
 
-        recursion_stack = Stack(implementation='linked_list')
-        recursion_stack.push((self._root, None))
-
-        while not recursion_stack.is_empty:
-            node, child = recursion_stack.peek.key
+        if index < 0 or index >= len(self._array):
+            raise IndexError("Index, {} out of range, "
+                             "[{}, {}).".format(index, 0, len(self._array)))
+
+        path, node = [], self._root
+        start, end = node.key
+        while start != end:
+            path.append(node)
+            mid = (start + end) // 2
+            if index <= mid:
+                node = node.left
+            else:
+                node = node.right
             start, end = node.key
-            if start == end:
-                self._array[index] = value
-                node.data = value
-                recursion_stack.pop()
-                if not recursion_stack.is_empty:
-                    parent_node = recursion_stack.pop()
-                    recursion_stack.push((parent_node.key[0], node))
-                continue
 
-            if child is not None:
-                node.data = self._func((node.left.data, node.right.data))
-                recursion_stack.pop()
-                if not recursion_stack.is_empty:
-                    parent_node = recursion_stack.pop()
-                    recursion_stack.push((parent_node.key[0], node))
+        # Nothing is modified until all the new results are known.
+        updates = [(node, value)]
+        for parent in reversed(path):
+            child, data = updates[-1]
+            if child is parent.left:
+                data = self._func((data, parent.right.data))
             else:
-                mid = (start + end) // 2
-                if start <= index and index <= mid:
-                    recursion_stack.push((node.left, None))
-                else:
-                    recursion_stack.push((node.right, None))
+                data = self._func((parent.left.data, data))
+            updates.append((parent, data))
+
+        self._array[index] = value
+        for node, data in updates:
+            node.data = data
 
     def _query(self, node, start, end, l, r):
         if r < start or end < l:
-- 
2.43.0


From 40c067dad8a853ffc92020a5d0b5fc577aeae144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:16 +0000
Subject: [PATCH 51/78] fix: binary indexed trees were broken by failing
 additions and positions outside the array

---
 .../trees/_backend/cpp/BinaryIndexedTree.hpp  | 32 ++++++++++++++++---
 pydatastructs/trees/binary_trees.py           | 27 +++++++++-------
 2 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
index 39957fa..e9bf785 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
@@ -27,6 +27,14 @@ static void BinaryIndexedTree_dealloc(BinaryIndexedTree *self) {
 static PyObject* BinaryIndexedTree_update(BinaryIndexedTree* self, PyObject *args) {
     long index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
     long value = PyLong_AsLong(PyObject_GetItem(args, PyOne));
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
+    if (index < 0 || index >= (long) self->array->_size) {
+        PyErr_Format(PyExc_IndexError, "Index, %ld out of range, [0, %ld).",
+                     index, (long) self->array->_size);
+        return NULL;
+    }
     long _index = index;
     long _value = value;
     if (PyList_GetItem(self->flag, index) == PyZero) {
@@ -72,7 +80,9 @@ static PyObject* BinaryIndexedTree___new__(PyTypeObject* type, PyObject *args, P
     self->flag = PyList_New(self->array->_size);
     for(int i=0;i<self->array->_size;i++) {
         PyList_SetItem(self->flag, i, PyZero);
-        BinaryIndexedTree_update(self, Py_BuildValue("(OO)", PyLong_FromLong(i), self->array->_data[i]));
+        if (!BinaryIndexedTree_update(self, Py_BuildValue("(OO)", PyLong_FromLong(i), self->array->_data[i]))) {
+            return NULL;
+        }
     }
 
     return reinterpret_cast<PyObject*>(self);
@@ -80,6 +90,14 @@ static PyObject* BinaryIndexedTree___new__(PyTypeObject* type, PyObject *args, P
 
 static PyObject* BinaryIndexedTree_get_prefix_sum(BinaryIndexedTree* self, PyObject *args) {
     long index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
+    if (index >= (long) self->array->_size) {
+        PyErr_Format(PyExc_IndexError, "Index, %ld out of range, [0, %ld).",
+                     index, (long) self->array->_size);
+        return NULL;
+    }
     index += 1;
     long sum = 0;
     while (index > 0) {
@@ -94,9 +112,15 @@ static PyObject* BinaryIndexedTree_get_sum(BinaryIndexedTree* self, PyObject *ar
     long left_index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
     long right_index = PyLong_AsLong(PyObject_GetItem(args, PyOne));
     if (left_index >= 1) {
-        long l1 = PyLong_AsLong(BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(right_index))));
-        long l2 = PyLong_AsLong(BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(left_index - 1))));
-        return PyLong_FromLong(l1 - l2);
+        PyObject* s1 = BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(right_index)));
+        if (!s1) {
+            return NULL;
+        }
+        PyObject* s2 = BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(left_index - 1)));
+        if (!s2) {
+            return NULL;
+        }
+        return PyNumber_Subtract(s1, s2);
     }
     else {
         return BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(right_index)));
diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 805806d..a89c1e1 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1858,20 +1858,22 @@ class BinaryIndexedTree(object):
         value
             The value to be inserted.
         """
+        if index < 0 or index >= self.array._size:
+            raise IndexError("Index, {} out of range, "
+                             "[{}, {}).".format(index, 0, self.array._size))
         _index, _value = index, value
-        if self.flag[index] == 0:
-            self.flag[index] = 1
-            index += 1
-            while index < self.array._size + 1:
-                self.tree[index] += value
-                index = index + (index & (-index))
-        else:
+        if self.flag[index] != 0:
             value = value - self.array[index]
-            index += 1
-            while index < self.array._size + 1:
-                self.tree[index] += value
-                index = index + (index & (-index))
+        # Nothing is modified until all the new sums are known.
+        sums = []
+        index += 1
+        while index < self.array._size + 1:
+            sums.append((index, self.tree[index] + value))
+            index = index + (index & (-index))
         self.array[_index] = _value
+        self.flag[_index] = 1
+        for index, sum in sums:
+            self.tree[index] = sum
 
     def get_prefix_sum(self, index):
         """
@@ -1889,6 +1891,9 @@ class BinaryIndexedTree(object):
         sum: int
             The required sum.
         """
+        if index >= self.array._size:
+            raise IndexError("Index, {} out of range, "
+                             "[{}, {}).".format(index, 0, self.array._size))
         index += 1
         sum = 0
         while index > 0:
-- 
2.43.0


From a82e0bddd44031f3c5d9824fb0fc2b6044e87f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:12 +0000
Subject: [PATCH 52/78] fix: adjacency lists kept edges of removed vertices and
 lost data when an edge was added again

---
 pydatastructs/graphs/adjacency_list.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/graphs/adjacency_list.py b/pydatastructs/graphs/adjacency_list.py
index bd901b3..02ca92b 100644
--- a/pydatastructs/graphs/adjacency_list.py
+++ b/pydatastructs/graphs/adjacency_list.py
@@ -61,6 +61,9 @@ class AdjacencyList(Graph):
     def remove_vertex(self, name):
         delattr(self, name)
         self.vertices.remove(name)
+        for key, edge in list(self.edge_weights.items()):
+            if name in (edge.source.name, edge.target.name):
+                del self.edge_weights[key]
         for node in self.vertices:
             node_obj = self.__getattribute__(node)
             if hasattr(node_obj, name):
@@ -83,10 +86,11 @@ class AdjacencyList(Graph):
 
         source, target = self.__getattribute__(source), \
             self.__getattribute__(target)
-        source.add_adjacent_node(target.name)
-        if cost is not None:
-            self.edge_weights[source.name + "_" + target.name] = \
-                GraphEdge(source, target, cost)
+        edge = None if cost is None else GraphEdge(source, target, cost)
+        if not hasattr(source, target.name):
+            source.add_adjacent_node(target.name)
+        if edge is not None:
+            self.edge_weights[source.name + "_" + target.name] = edge
 
     def get_edge(self, source, target):
         return self.edge_weights.get(
-- 
2.43.0


From 2377218b5fb56aa40b995166b4932f66ee30a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:12 +0000
Subject: [PATCH 53/78] fix: adjacency matrices counted removed edges

---
 pydatastructs/graphs/adjacency_matrix.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pydatastructs/graphs/adjacency_matrix.py b/pydatastructs/graphs/adjacency_matrix.py
index 9c2326b..c34312d 100644
--- a/pydatastructs/graphs/adjacency_matrix.py
+++ b/pydatastructs/graphs/adjacency_matrix.py
@@ -48,7 +48,8 @@ class AdjacencyMatrix(Graph):
         return len(self.vertices)
 
     def num_edges(self):
-        return sum(len(v) for v in self.matrix.values())
+        return sum(1 for row in self.matrix.values()
+                   for presence in row.values() if presence)
 
     def neighbors(self, node):
         node = str(node)
@@ -82,12 +83,14 @@ class AdjacencyMatrix(Graph):
         if target not in self.matrix:
             raise ValueError(error_msg % (target))
 
-        self.matrix[source][target] = True
+        edge = None
         if cost is not None:
-            self.edge_weights[source + "_" + target] = \
-                GraphEdge(self.__getattribute__(source),
-                          self.__getattribute__(target),
-                          cost)
+            edge = GraphEdge(self.__getattribute__(source),
+                             self.__getattribute__(target),
+                             cost)
+        self.matrix[source][target] = True
+        if edge is not None:
+            self.edge_weights[source + "_" + target] = edge
 
     def get_edge(self, source, target):
         return self.edge_weights.get(
-- 
2.43.0


From 08ddbb5bd56200dea7b80e7aa0f9a64dda2ff88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:12 +0000
Subject: [PATCH 54/78] fix: vertices shared the caller's adjacency list and
 could not remove its members

---
 pydatastructs/utils/misc_util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydatastructs/utils/misc_util.py b/pydatastructs/utils/misc_util.py
index 529fc58..1162013 100644
--- a/pydatastructs/utils/misc_util.py
+++ b/pydatastructs/utils/misc_util.py
@@ -408,8 +408,7 @@ class AdjacencyListGraphNode(GraphNode):
             if len(adjacency_list) > 0:
                 for node in adjacency_list:
                     obj.__setattr__(node.name, node)
-            obj.adjacent = adjacency_list if len(adjacency_list) > 0 \
-                        else []
+            obj.adjacent = [node.name for node in adjacency_list]
             return obj
         else:
             from pydatastructs.graphs._backend.cpp import _graph
-- 
2.43.0


From e68e9162983bebc3ec8b39b44ca1c9afdbb55ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:50 +0000
Subject: [PATCH 55/78] fix: C++ spanning trees changed the graph, C++ shortest
 paths ran into memory of others after vertices were removed

---
 .../graphs/_backend/cpp/Algorithms.hpp        | 224 ++++++++----------
 1 file changed, 101 insertions(+), 123 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index dc6722e..544d7dc 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -188,9 +188,21 @@ static PyObject* minimum_spanning_tree_prim_adjacency_list(PyObject* self, PyObj
         std::variant<std::monostate, int64_t, double, std::string> value;
         DataType value_type;
 
+        bool is_number() const {
+            return value_type == DataType::Int || value_type == DataType::Double;
+        }
+
+        double number() const {
+            return value_type == DataType::Int ? static_cast<double>(std::get<int64_t>(value))
+                                               : std::get<double>(value);
+        }
+
         bool operator>(const EdgeTuple& other) const {
-            if (value_type != other.value_type)
+            if (value_type != other.value_type) {
+                if (is_number() && other.is_number())
+                    return number() > other.number();
                 return value_type > other.value_type;
+            }
             if (std::holds_alternative<int64_t>(value))
                 return std::get<int64_t>(value) > std::get<int64_t>(other.value);
             if (std::holds_alternative<double>(value))
@@ -204,135 +216,93 @@ static PyObject* minimum_spanning_tree_prim_adjacency_list(PyObject* self, PyObj
     std::priority_queue<EdgeTuple, std::vector<EdgeTuple>, std::greater<>> pq;
     std::unordered_set<int> visited;
 
-    PyObject* mst_graph = PyObject_CallObject(reinterpret_cast<PyObject*>(&AdjacencyListGraphType), nullptr);
-    AdjacencyListGraph* mst = reinterpret_cast<AdjacencyListGraph*>(mst_graph);
-
-    int start_id = graph->nodes[0]->internal_id;
-    visited.insert(start_id);
-
-    AdjacencyListGraphNode* start_node = graph->id_map[start_id];
-    std::string start_name = graph->id_to_name[start_id];
-
-    Py_INCREF(start_node);
-    mst->nodes.push_back(start_node);
-    mst->node_map[start_name] = start_node;
-    mst->id_map[start_id] = start_node;
-    mst->id_to_name[start_id] = start_name;
-    mst->name_to_id[start_name] = start_id;
-
-    for (const auto& [adj_name, _] : start_node->adjacent) {
-        int adj_id = graph->name_to_id[adj_name];
-        std::string key = make_edge_key(start_name, adj_name);
-        GraphEdge* edge = graph->edges[key];
-
-        EdgeTuple et;
-        et.source_id = start_id;
-        et.target_id = adj_id;
-        et.value_type = edge->value_type;
-
-        switch (edge->value_type) {
-            case DataType::Int:
-                et.value = std::get<int64_t>(edge->value);
-                break;
-            case DataType::Double:
-                et.value = std::get<double>(edge->value);
-                break;
-            case DataType::String:
-                et.value = std::get<std::string>(edge->value);
-                break;
-            default:
-                et.value = std::monostate{};
-        }
-
-        pq.push(et);
+    if (graph->nodes.empty()) {
+        PyErr_SetString(PyExc_ValueError, "The graph has no vertices");
+        return nullptr;
     }
 
-    while (!pq.empty()) {
-        EdgeTuple edge = pq.top();
-        pq.pop();
+    PyObject* mst_graph = PyObject_CallObject(reinterpret_cast<PyObject*>(&AdjacencyListGraphType), nullptr);
+    if (!mst_graph) return nullptr;
+    AdjacencyListGraph* mst = reinterpret_cast<AdjacencyListGraph*>(mst_graph);
 
-        if (visited.count(edge.target_id)) continue;
-        visited.insert(edge.target_id);
-
-        int u_id = edge.source_id;
-        int v_id = edge.target_id;
-        std::string u_name = graph->id_to_name[u_id];
-        std::string v_name = graph->id_to_name[v_id];
-
-        for (auto [id, name] : std::vector<std::pair<int, std::string>>{{u_id, u_name}, {v_id, v_name}}) {
-            if (!mst->id_map.count(id)) {
-                AdjacencyListGraphNode* node = graph->id_map[id];
-                Py_INCREF(node);
-                mst->nodes.push_back(node);
-                mst->node_map[name] = node;
-                mst->id_map[id] = node;
-                mst->id_to_name[id] = name;
-                mst->name_to_id[name] = id;
+    // Adds the vertex to the spanning tree, and its edges to the queue. The
+    // tree has vertices of its own since adjacency is a part of the vertices.
+    auto visit = [&](int id) -> AdjacencyListGraphNode* {
+        AdjacencyListGraphNode* original = graph->id_map[id];
+        PyObject* data = AdjacencyListGraphNode_get_data(original, nullptr);
+        if (!data) return nullptr;
+        PyObject* copy = PyObject_CallFunction(
+            reinterpret_cast<PyObject*>(&AdjacencyListGraphNodeType), "sO",
+            original->name.c_str(), data);
+        Py_DECREF(data);
+        if (!copy) return nullptr;
+
+        AdjacencyListGraphNode* node = reinterpret_cast<AdjacencyListGraphNode*>(copy);
+        node->internal_id = id;
+        mst->nodes.push_back(node);
+        mst->node_map[node->name] = node;
+        mst->id_map[id] = node;
+        mst->id_to_name[id] = node->name;
+        mst->name_to_id[node->name] = id;
+        mst->next_id = std::max(mst->next_id, id + 1);
+        visited.insert(id);
+
+        for (const auto& [adj_name, _] : original->adjacent) {
+            auto adj_it = graph->name_to_id.find(adj_name);
+            auto edge_it = graph->edges.find(make_edge_key(original->name, adj_name));
+            if (adj_it == graph->name_to_id.end() || edge_it == graph->edges.end()) {
+                PyErr_Format(PyExc_KeyError, "No edge from %s to %s",
+                             original->name.c_str(), adj_name.c_str());
+                return nullptr;
             }
+            if (visited.count(adj_it->second)) continue;
+
+            EdgeTuple et;
+            et.source_id = id;
+            et.target_id = adj_it->second;
+            et.value = edge_it->second->value;
+            et.value_type = edge_it->second->value_type;
+            pq.push(et);
         }
+        return node;
+    };
 
-        AdjacencyListGraphNode* u = mst->id_map[u_id];
-        AdjacencyListGraphNode* v = mst->id_map[v_id];
-
-        Py_INCREF(v);
-        Py_INCREF(u);
-        u->adjacent[v_name] = reinterpret_cast<PyObject*>(v);
-        v->adjacent[u_name] = reinterpret_cast<PyObject*>(u);
-
-        std::string key_uv = make_edge_key(u_name, v_name);
+    auto connect = [&](AdjacencyListGraphNode* u, AdjacencyListGraphNode* v,
+                       const EdgeTuple& edge) -> bool {
         GraphEdge* new_edge = PyObject_New(GraphEdge, &GraphEdgeType);
-        PyObject_Init(reinterpret_cast<PyObject*>(new_edge), &GraphEdgeType);
+        if (!new_edge) return false;
         new (&new_edge->value) std::variant<std::monostate, int64_t, double, std::string>(edge.value);
         new_edge->value_type = edge.value_type;
         Py_INCREF(u);
         Py_INCREF(v);
         new_edge->source = reinterpret_cast<PyObject*>(u);
         new_edge->target = reinterpret_cast<PyObject*>(v);
-        mst->edges[key_uv] = new_edge;
-
-        std::string key_vu = make_edge_key(v_name, u_name);
-        GraphEdge* new_edge_rev = PyObject_New(GraphEdge, &GraphEdgeType);
-        PyObject_Init(reinterpret_cast<PyObject*>(new_edge_rev), &GraphEdgeType);
-        new (&new_edge_rev->value) std::variant<std::monostate, int64_t, double, std::string>(edge.value);
-        new_edge_rev->value_type = edge.value_type;
-        Py_INCREF(u);
+        mst->edges[make_edge_key(u->name, v->name)] = new_edge;
         Py_INCREF(v);
-        new_edge_rev->source = reinterpret_cast<PyObject*>(v);
-        new_edge_rev->target = reinterpret_cast<PyObject*>(u);
-        mst->edges[key_vu] = new_edge_rev;
-
-        AdjacencyListGraphNode* next_node = graph->id_map[v_id];
-        for (const auto& [adj_name, _] : next_node->adjacent) {
-            int adj_id = graph->name_to_id[adj_name];
-            if (visited.count(adj_id)) continue;
-
-            std::string key = make_edge_key(v_name, adj_name);
-            GraphEdge* adj_edge = graph->edges[key];
-
-            EdgeTuple adj_et;
-            adj_et.source_id = v_id;
-            adj_et.target_id = adj_id;
-            adj_et.value_type = adj_edge->value_type;
-
-            switch (adj_edge->value_type) {
-                case DataType::Int:
-                    adj_et.value = std::get<int64_t>(adj_edge->value);
-                    break;
-                case DataType::Double:
-                    adj_et.value = std::get<double>(adj_edge->value);
-                    break;
-                case DataType::String:
-                    adj_et.value = std::get<std::string>(adj_edge->value);
-                    break;
-                default:
-                    adj_et.value = std::monostate{};
-            }
+        u->adjacent[v->name] = reinterpret_cast<PyObject*>(v);
+        return true;
+    };
 
-            pq.push(adj_et);
+    if (!visit(graph->name_to_id[graph->nodes[0]->name])) {
+        Py_DECREF(mst_graph);
+        return nullptr;
+    }
+
+    while (!pq.empty()) {
+        EdgeTuple edge = pq.top();
+        pq.pop();
+
+        if (visited.count(edge.target_id)) continue;
+
+        AdjacencyListGraphNode* u = mst->id_map[edge.source_id];
+        AdjacencyListGraphNode* v = visit(edge.target_id);
+        if (!v || !connect(u, v, edge) || !connect(v, u, edge)) {
+            Py_DECREF(mst_graph);
+            return nullptr;
         }
     }
 
-    return reinterpret_cast<PyObject*>(mst);
+    return mst_graph;
 }
 
 static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject* args, PyObject* kwargs) {
@@ -348,15 +318,25 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
     }
 
     AdjacencyListGraph* graph = reinterpret_cast<AdjacencyListGraph*>(graph_obj);
-    const size_t V = graph->node_map.size();
+    for (const char* name : {source_name, target_name}) {
+        if ((name == source_name || *name) &&
+            graph->name_to_id.find(name) == graph->name_to_id.end()) {
+            PyErr_Format(PyExc_KeyError, "Vertex %s is not present in the graph", name);
+            return nullptr;
+        }
+    }
+
+    // Identifiers of removed vertices are not used again.
+    const size_t V = static_cast<size_t>(graph->next_id);
 
     std::vector<std::vector<std::pair<int, double>>> adj(V);
-    for (const auto& [edge_key, edge] : graph->edges) {
-        size_t delim = edge_key.find('_');
-        std::string u_name = edge_key.substr(0, delim);
-        std::string v_name = edge_key.substr(delim + 1);
-        int u = graph->name_to_id[u_name];
-        int v = graph->name_to_id[v_name];
+    for (const auto& [_, edge] : graph->edges) {
+        auto u_it = graph->name_to_id.find(reinterpret_cast<AdjacencyListGraphNode*>(edge->source)->name);
+        auto v_it = graph->name_to_id.find(reinterpret_cast<AdjacencyListGraphNode*>(edge->target)->name);
+        if (u_it == graph->name_to_id.end() || v_it == graph->name_to_id.end())
+            continue;
+        int u = u_it->second;
+        int v = v_it->second;
 
         double weight = 0.0;
         if (edge->value_type == DataType::Int)
@@ -398,8 +378,7 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
     PyObject* pred_dict = PyDict_New();
     if (!dist_dict || !pred_dict) return nullptr;
 
-    for (int id = 0; id < static_cast<int>(V); ++id) {
-        const std::string& name = graph->id_to_name[id];
+    for (const auto& [id, name] : graph->id_to_name) {
         PyObject* dval = PyFloat_FromDouble(dist[id]);
         if (!dval || PyDict_SetItemString(dist_dict, name.c_str(), dval) < 0) {
             Py_XDECREF(dval);
@@ -410,8 +389,7 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
         Py_DECREF(dval);
     }
 
-    for (int id = 0; id < static_cast<int>(V); ++id) {
-        const std::string& name = graph->id_to_name[id];
+    for (const auto& [id, name] : graph->id_to_name) {
         PyObject* py_pred;
         if (pred[id] == -1) {
             Py_INCREF(Py_None);
-- 
2.43.0


From 38d6fde3131ebca52cdc1c2bb5797447442b0706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:22 +0000
Subject: [PATCH 56/78] fix: C++ graphs freed edges in use, leaked vertices and
 mixed up names holding an underscore

---
 .../graphs/_backend/cpp/AdjacencyList.hpp     | 21 ++++++++-----
 .../graphs/_backend/cpp/AdjacencyMatrix.hpp   | 31 ++++++++++++++-----
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
index ffbb6f4..14975c2 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
@@ -95,8 +95,9 @@ static PyObject* AdjacencyListGraph_new(PyTypeObject* type, PyObject* args, PyOb
     return reinterpret_cast<PyObject*>(self);
 }
 
+// Names cannot contain null characters, hence keys are unambiguous.
 static std::string make_edge_key(const std::string& source, const std::string& target) {
-    return source + "_" + target;
+    return source + '\0' + target;
 }
 
 static PyObject* AdjacencyListGraph_add_vertex(AdjacencyListGraph* self, PyObject* args) {
@@ -158,7 +159,11 @@ static PyObject* AdjacencyListGraph_num_vertices(AdjacencyListGraph* self, PyObj
 }
 
 static PyObject* AdjacencyListGraph_num_edges(AdjacencyListGraph* self, PyObject* Py_UNUSED(ignored)) {
-    return PyLong_FromSize_t(self->edges.size());
+    size_t count = 0;
+    for (AdjacencyListGraphNode* node : self->nodes) {
+        count += node->adjacent.size();
+    }
+    return PyLong_FromSize_t(count);
 }
 
 static PyObject* AdjacencyListGraph_neighbors(AdjacencyListGraph* self, PyObject* args) {
@@ -178,8 +183,10 @@ static PyObject* AdjacencyListGraph_neighbors(AdjacencyListGraph* self, PyObject
     if (!neighbors_list) return NULL;
 
     for (const auto& adj_pair : node->adjacent) {
-        Py_INCREF(adj_pair.second);
-        PyList_Append(neighbors_list, (PyObject*)adj_pair.second);
+        if (PyList_Append(neighbors_list, (PyObject*)adj_pair.second) < 0) {
+            Py_DECREF(neighbors_list);
+            return NULL;
+        }
     }
 
     return neighbors_list;
@@ -221,9 +228,9 @@ static PyObject* AdjacencyListGraph_remove_vertex(AdjacencyListGraph* self, PyOb
 
     for (auto it = self->edges.begin(); it != self->edges.end(); ) {
         const std::string& key = it->first;
-        size_t underscore = key.find('_');
-        std::string src = key.substr(0, underscore);
-        std::string dst = key.substr(underscore + 1);
+        size_t separator = key.find('\0');
+        std::string src = key.substr(0, separator);
+        std::string dst = key.substr(separator + 1);
 
         if (src == name || dst == name) {
             Py_XDECREF(it->second);
diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
index 7bd89d5..cd4cf5b 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
@@ -92,6 +92,12 @@ static PyObject* AdjacencyMatrixGraph_new(PyTypeObject* type, PyObject* args, Py
     return reinterpret_cast<PyObject*>(self);
 }
 
+// Names cannot contain null characters, hence keys are unambiguous.
+static std::string make_matrix_edge_key(const std::string& source, const std::string& target)
+{
+    return source + '\0' + target;
+}
+
 static PyObject* AdjacencyMatrixGraph_add_edge(AdjacencyMatrixGraph* self, PyObject* args, PyObject* kwds)
 {
     const char *source, *target;
@@ -110,8 +116,6 @@ static PyObject* AdjacencyMatrixGraph_add_edge(AdjacencyMatrixGraph* self, PyObj
         return NULL;
     }
 
-    self->matrix[src][dst] = true;
-
     if (cost_obj != Py_None) {
     double cost = PyFloat_AsDouble(cost_obj);
     if (PyErr_Occurred()) return NULL;
@@ -127,9 +131,14 @@ static PyObject* AdjacencyMatrixGraph_add_edge(AdjacencyMatrixGraph* self, PyObj
     Py_DECREF(args);
     if (!edge_obj) return NULL;
 
-    self->edge_weights[src + "_" + dst] = reinterpret_cast<GraphEdge*>(edge_obj);
+    GraphEdge*& edge = self->edge_weights[make_matrix_edge_key(src, dst)];
+    GraphEdge* old_edge = edge;
+    edge = reinterpret_cast<GraphEdge*>(edge_obj);
+    Py_XDECREF(old_edge);
     }
 
+    self->matrix[src][dst] = true;
+
     Py_RETURN_NONE;
 }
 
@@ -144,7 +153,11 @@ static PyObject* AdjacencyMatrixGraph_remove_edge(AdjacencyMatrixGraph* self, Py
 
     if (self->matrix.find(src) != self->matrix.end()) {
         self->matrix[src][dst] = false;
-        self->edge_weights.erase(src + "_" + dst);
+        auto it = self->edge_weights.find(make_matrix_edge_key(src, dst));
+        if (it != self->edge_weights.end()) {
+            Py_XDECREF(it->second);
+            self->edge_weights.erase(it);
+        }
     }
 
     Py_RETURN_NONE;
@@ -164,12 +177,15 @@ static PyObject* AdjacencyMatrixGraph_neighbors(AdjacencyMatrixGraph* self, PyOb
     }
 
     PyObject* list = PyList_New(0);
+    if (!list) return NULL;
     for (const auto& pair : self->matrix[key]) {
         if (pair.second) {
             const std::string& neighbor_name = pair.first;
             AdjacencyMatrixGraphNode* neighbor = self->node_map[neighbor_name];
-            Py_INCREF(neighbor);
-            PyList_Append(list, (PyObject*)neighbor);
+            if (PyList_Append(list, (PyObject*)neighbor) < 0) {
+                Py_DECREF(list);
+                return NULL;
+            }
         }
     }
     return list;
@@ -199,9 +215,10 @@ static PyObject* AdjacencyMatrixGraph_get_edge(AdjacencyMatrixGraph* self, PyObj
     if (!PyArg_ParseTuple(args, "ss", &source, &target))
         return NULL;
 
-    std::string key = std::string(source) + "_" + std::string(target);
+    std::string key = make_matrix_edge_key(source, target);
     auto it = self->edge_weights.find(key);
     if (it != self->edge_weights.end()) {
+        Py_INCREF(it->second);
         return reinterpret_cast<PyObject*>(it->second);
     }
     Py_RETURN_NONE;
-- 
2.43.0


From 9d35c9a557db73bde4ce7201a4d681fbeba6cbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:42 +0000
Subject: [PATCH 57/78] fix: C++ vertices and edges crashed on strings and
 numbers they cannot hold and on deletion of their data

---
 .../_backend/cpp/AdjacencyListGraphNode.hpp   | 101 ++++++----------
 .../_backend/cpp/AdjacencyMatrixGraphNode.hpp |   2 +-
 .../utils/_backend/cpp/GraphEdge.hpp          |  69 +++++------
 .../utils/_backend/cpp/GraphNode.hpp          | 112 ++++++++++--------
 4 files changed, 135 insertions(+), 149 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
index 8eba375..4cd0bfd 100644
--- a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
@@ -28,7 +28,9 @@ static void AdjacencyListGraphNode_dealloc(AdjacencyListGraphNode* self) {
     for (auto& pair : self->adjacent) {
         Py_XDECREF(pair.second);
     }
-    self->adjacent.clear();
+    std::destroy_at(&self->adjacent);
+    std::destroy_at(&self->name);
+    std::destroy_at(&self->data);
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
@@ -50,28 +52,15 @@ static PyObject* AdjacencyListGraphNode_new(PyTypeObject* type, PyObject* args,
 
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "s|OO", kwlist, &name, &data, &adjacency_list)) {
         PyErr_SetString(PyExc_ValueError, "Invalid arguments: Expected (str, object, list)");
+        Py_DECREF(self);
         return NULL;
     }
 
     self->name = std::string(name);
 
-    if (data == Py_None) {
-        self->data_type = DataType::None;
-        self->data = std::monostate{};
-    } else if (PyLong_Check(data)) {
-        self->data_type = DataType::Int;
-        self->data = static_cast<int64_t>(PyLong_AsLongLong(data));
-    } else if (PyFloat_Check(data)) {
-        self->data_type = DataType::Double;
-        self->data = PyFloat_AsDouble(data);
-    } else if (PyUnicode_Check(data)) {
-        const char* str = PyUnicode_AsUTF8(data);
-        self->data_type = DataType::String;
-        self->data = std::string(str);
-    } else {
-        self->data_type = DataType::PyObject;
-        Py_INCREF(data);
-        self->data = data;
+    if (graph_data_from(data, self->data, self->data_type) < 0) {
+        Py_DECREF(self);
+        return NULL;
     }
 
     if (PyList_Check(adjacency_list)) {
@@ -81,13 +70,13 @@ static PyObject* AdjacencyListGraphNode_new(PyTypeObject* type, PyObject* args,
 
             if (!PyObject_IsInstance(node, (PyObject*)&AdjacencyListGraphNodeType)) {
                 PyErr_SetString(PyExc_TypeError, "Adjacency list must contain only AdjacencyListGraphNode instances");
+                Py_DECREF(self);
                 return NULL;
             }
 
-            const char* adj_name = (reinterpret_cast<AdjacencyListGraphNode*>(node))->name.c_str();
-            std::string str = std::string(adj_name);
+            PyObject*& adjacent = self->adjacent[(reinterpret_cast<AdjacencyListGraphNode*>(node))->name];
             Py_INCREF(node);
-            self->adjacent[str] = node;
+            Py_XSETREF(adjacent, node);
         }
     }
 
@@ -109,11 +98,11 @@ static PyObject* AdjacencyListGraphNode_add_adjacent_node(AdjacencyListGraphNode
             return NULL;
         }
         self->adjacent[name] = new_node;
-        Py_INCREF(new_node);
     } else {
-        Py_XDECREF(self->adjacent[name]);
+        PyObject* old_node = self->adjacent[name];
         Py_INCREF(data);
         self->adjacent[name] = data;
+        Py_XDECREF(old_node);
     }
     Py_RETURN_NONE;
 }
@@ -127,8 +116,9 @@ static PyObject* AdjacencyListGraphNode_remove_adjacent_node(AdjacencyListGraphN
 
     auto it = self->adjacent.find(name);
     if (it != self->adjacent.end()) {
-        Py_XDECREF(it->second);
+        PyObject* old_node = it->second;
         self->adjacent.erase(it);
+        Py_XDECREF(old_node);
         Py_RETURN_NONE;
     } else {
         PyErr_SetString(PyExc_ValueError, "Node is not adjacent");
@@ -137,16 +127,15 @@ static PyObject* AdjacencyListGraphNode_remove_adjacent_node(AdjacencyListGraphN
 }
 
 static PyObject* AdjacencyListGraphNode_get_name(AdjacencyListGraphNode* self, void* closure) {
-    return PyUnicode_FromString(self->name.c_str());
+    return graph_string_to(self->name);
 }
 
 static int AdjacencyListGraphNode_set_name(AdjacencyListGraphNode* self, PyObject* value, void* closure) {
-    if (!PyUnicode_Check(value)) {
+    if (!value || !PyUnicode_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "name must be a string");
         return -1;
     }
-    self->name = PyUnicode_AsUTF8(value);
-    return 0;
+    return graph_string_from(value, self->name) ? 0 : -1;
 }
 
 static PyObject* AdjacencyListGraphNode_get_data(AdjacencyListGraphNode* self, void* closure) {
@@ -156,7 +145,7 @@ static PyObject* AdjacencyListGraphNode_get_data(AdjacencyListGraphNode* self, v
         case DataType::Double:
             return PyFloat_FromDouble(std::get<double>(self->data));
         case DataType::String:
-            return PyUnicode_FromString(std::get<std::string>(self->data).c_str());
+            return graph_string_to(std::get<std::string>(self->data));
         case DataType::PyObject:
             Py_INCREF(std::get<PyObject*>(self->data));
             return std::get<PyObject*>(self->data);
@@ -167,33 +156,7 @@ static PyObject* AdjacencyListGraphNode_get_data(AdjacencyListGraphNode* self, v
 }
 
 static int AdjacencyListGraphNode_set_data(AdjacencyListGraphNode* self, PyObject* value, void* closure) {
-    if (self->data_type == DataType::PyObject) {
-        Py_XDECREF(std::get<PyObject*>(self->data));
-    }
-
-    if (value == Py_None) {
-        self->data_type = DataType::None;
-        self->data = std::monostate{};
-    } else if (PyLong_Check(value)) {
-        self->data_type = DataType::Int;
-        self->data = static_cast<int64_t>(PyLong_AsLongLong(value));
-    } else if (PyFloat_Check(value)) {
-        self->data_type = DataType::Double;
-        self->data = PyFloat_AsDouble(value);
-    } else if (PyUnicode_Check(value)) {
-        const char* str = PyUnicode_AsUTF8(value);
-        if (!str) {
-            PyErr_SetString(PyExc_ValueError, "Invalid UTF-8 string.");
-            return -1;
-        }
-        self->data_type = DataType::String;
-        self->data = std::string(str);
-    } else {
-        self->data_type = DataType::PyObject;
-        Py_INCREF(value);
-        self->data = value;
-    }
-    return 0;
+    return graph_data_from(value, self->data, self->data_type);
 }
 
 static PyObject* AdjacencyListGraphNode_get_adjacent(AdjacencyListGraphNode* self, void* closure) {
@@ -201,31 +164,41 @@ static PyObject* AdjacencyListGraphNode_get_adjacent(AdjacencyListGraphNode* sel
     if (!py_dict) return NULL;
 
     for (const auto& pair : self->adjacent) {
-        PyDict_SetItemString(py_dict, pair.first.c_str(), pair.second);
+        if (PyDict_SetItemString(py_dict, pair.first.c_str(), pair.second) < 0) {
+            Py_DECREF(py_dict);
+            return NULL;
+        }
     }
 
     return py_dict;
 }
 
 static int AdjacencyListGraphNode_set_adjacent(AdjacencyListGraphNode* self, PyObject* value, void* closure) {
-    if (!PyDict_Check(value)) {
+    if (!value || !PyDict_Check(value)) {
         PyErr_SetString(PyExc_TypeError, "adjacent must be a dictionary");
         return -1;
     }
 
-    self->adjacent.clear();
-
+    std::unordered_map<std::string, PyObject*> adjacent;
+    std::string name;
     PyObject *key, *val;
     Py_ssize_t pos = 0;
     while (PyDict_Next(value, &pos, &key, &val)) {
-        if (!PyUnicode_Check(key) || !PyObject_IsInstance(val, (PyObject*)&AdjacencyListGraphNodeType)) {
+        if (!PyUnicode_Check(key) || !PyObject_TypeCheck(val, &AdjacencyListGraphNodeType)) {
             PyErr_SetString(PyExc_TypeError, "Keys must be strings and values must be AdjacencyListGraphNode instances");
             return -1;
         }
 
-        const char* key_str = PyUnicode_AsUTF8(key);
-        Py_INCREF(val);
-        self->adjacent[key_str] = val;
+        if (!graph_string_from(key, name)) return -1;
+        adjacent[name] = val;
+    }
+
+    for (auto& pair : adjacent) {
+        Py_INCREF(pair.second);
+    }
+    self->adjacent.swap(adjacent);
+    for (auto& pair : adjacent) {
+        Py_XDECREF(pair.second);
     }
 
     return 0;
diff --git a/pydatastructs/utils/_backend/cpp/AdjacencyMatrixGraphNode.hpp b/pydatastructs/utils/_backend/cpp/AdjacencyMatrixGraphNode.hpp
index f8c0d21..6fe1be8 100644
--- a/pydatastructs/utils/_backend/cpp/AdjacencyMatrixGraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/AdjacencyMatrixGraphNode.hpp
@@ -13,7 +13,7 @@ typedef struct {
 } AdjacencyMatrixGraphNode;
 
 static void AdjacencyMatrixGraphNode_dealloc(AdjacencyMatrixGraphNode* self){
-    Py_TYPE(self)->tp_free(reinterpret_cast<PyTypeObject*>(self));
+    GraphNode_dealloc(reinterpret_cast<GraphNode*>(self));
 }
 
 static PyObject* AdjacencyMatrixGraphNode_new(PyTypeObject* type, PyObject* args, PyObject* kwds){
diff --git a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
index a1b5fa8..a5de1c9 100644
--- a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
@@ -21,15 +21,45 @@ typedef struct {
 static void GraphEdge_dealloc(GraphEdge* self) {
     Py_XDECREF(self->source);
     Py_XDECREF(self->target);
+    std::destroy_at(&self->value);
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
+typedef std::variant<std::monostate, int64_t, double, std::string> GraphEdgeValue;
+
+// Stores a Python object as value of an edge, either completely or,
+// if an error is set, not at all.
+static inline int graph_value_from(PyObject* obj, GraphEdgeValue& value, DataType& type) {
+    if (obj == Py_None) {
+        type = DataType::None;
+        value = std::monostate{};
+    } else if (obj && PyLong_Check(obj)) {
+        long long number = PyLong_AsLongLong(obj);
+        if (number == -1 && PyErr_Occurred()) return -1;
+        type = DataType::Int;
+        value = static_cast<int64_t>(number);
+    } else if (obj && PyFloat_Check(obj)) {
+        type = DataType::Double;
+        value = PyFloat_AsDouble(obj);
+    } else if (obj && PyUnicode_Check(obj)) {
+        std::string str;
+        if (!graph_string_from(obj, str)) return -1;
+        type = DataType::String;
+        value = str;
+    } else {
+        PyErr_SetString(PyExc_TypeError, "Unsupported edge value type (must be int, float, str, or None)");
+        return -1;
+    }
+    return 0;
+}
+
 static PyObject* GraphEdge_new(PyTypeObject* type, PyObject* args, PyObject* kwds) {
     GraphEdge* self = PyObject_New(GraphEdge, &GraphEdgeType);
     if (!self) return NULL;
 
     new (&self->value) std::variant<std::monostate, int64_t, double, std::string>();
     self->value_type = DataType::None;
+    self->source = self->target = NULL;
 
     static char* kwlist[] = {"node1", "node2", "value", NULL};
     PyObject* node1;
@@ -38,6 +68,7 @@ static PyObject* GraphEdge_new(PyTypeObject* type, PyObject* args, PyObject* kwd
 
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "OO|O", kwlist, &node1, &node2, &value)) {
         PyErr_SetString(PyExc_ValueError, "Expected (GraphNode, GraphNode, optional value)");
+        Py_DECREF(self);
         return NULL;
     }
 
@@ -46,21 +77,8 @@ static PyObject* GraphEdge_new(PyTypeObject* type, PyObject* args, PyObject* kwd
     self->source = node1;
     self->target = node2;
 
-    if (value == Py_None) {
-        self->value_type = DataType::None;
-        self->value = std::monostate{};
-    } else if (PyLong_Check(value)) {
-        self->value_type = DataType::Int;
-        self->value = static_cast<int64_t>(PyLong_AsLongLong(value));
-    } else if (PyFloat_Check(value)) {
-        self->value_type = DataType::Double;
-        self->value = PyFloat_AsDouble(value);
-    } else if (PyUnicode_Check(value)) {
-        const char* str = PyUnicode_AsUTF8(value);
-        self->value_type = DataType::String;
-        self->value = std::string(str);
-    } else {
-        PyErr_SetString(PyExc_TypeError, "Unsupported edge value type (must be int, float, str, or None)");
+    if (graph_value_from(value, self->value, self->value_type) < 0) {
+        Py_DECREF(self);
         return NULL;
     }
 
@@ -98,7 +116,7 @@ static PyObject* GraphEdge_get_value(GraphEdge* self, void* closure) {
         case DataType::Double:
             return PyFloat_FromDouble(std::get<double>(self->value));
         case DataType::String:
-            return PyUnicode_FromString(std::get<std::string>(self->value).c_str());
+            return graph_string_to(std::get<std::string>(self->value));
         case DataType::None:
         default:
             Py_RETURN_NONE;
@@ -106,24 +124,7 @@ static PyObject* GraphEdge_get_value(GraphEdge* self, void* closure) {
 }
 
 static int GraphEdge_set_value(GraphEdge* self, PyObject* value) {
-    if (value == Py_None) {
-        self->value_type = DataType::None;
-        self->value = std::monostate{};
-    } else if (PyLong_Check(value)) {
-        self->value_type = DataType::Int;
-        self->value = static_cast<int64_t>(PyLong_AsLongLong(value));
-    } else if (PyFloat_Check(value)) {
-        self->value_type = DataType::Double;
-        self->value = PyFloat_AsDouble(value);
-    } else if (PyUnicode_Check(value)) {
-        const char* str = PyUnicode_AsUTF8(value);
-        self->value_type = DataType::String;
-        self->value = std::string(str);
-    } else {
-        PyErr_SetString(PyExc_TypeError, "Edge value must be int, float, str, or None.");
-        return -1;
-    }
-    return 0;
+    return graph_value_from(value, self->value, self->value_type);
 }
 
 static PyGetSetDef GraphEdge_getsetters[] = {
diff --git a/pydatastructs/utils/_backend/cpp/GraphNode.hpp b/pydatastructs/utils/_backend/cpp/GraphNode.hpp
index 17a0748..2ced82c 100644
--- a/pydatastructs/utils/_backend/cpp/GraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphNode.hpp
@@ -4,6 +4,7 @@
 #define PY_SSIZE_T_CLEAN
 #include <Python.h>
 #include <string>
+#include <memory>
 #include <variant>
 #include "Node.hpp"
 
@@ -17,6 +18,57 @@ enum class DataType {
     PyObject
 };
 
+// The UTF-8 encoding of a Python string, false (with an error set) if there is none.
+static inline bool graph_string_from(PyObject* obj, std::string& out) {
+    Py_ssize_t size;
+    const char* str = PyUnicode_AsUTF8AndSize(obj, &size);
+    if (!str) return false;
+    out.assign(str, static_cast<size_t>(size));
+    return true;
+}
+
+static inline PyObject* graph_string_to(const std::string& str) {
+    return PyUnicode_FromStringAndSize(str.data(), static_cast<Py_ssize_t>(str.size()));
+}
+
+// Stores a Python object in the data of a vertex, either completely or,
+// if an error is set, not at all.
+typedef std::variant<std::monostate, int64_t, double, std::string, PyObject *> GraphNodeData;
+
+static inline int graph_data_from(PyObject* obj, GraphNodeData& data, DataType& type) {
+    if (!obj) {
+        PyErr_SetString(PyExc_ValueError, "Cannot delete attributes");
+        return -1;
+    }
+    PyObject* old = type == DataType::PyObject ? std::get<PyObject*>(data) : NULL;
+    int overflow = 0;
+    long long number = 0;
+    std::string str;
+    if (PyLong_Check(obj)) {
+        number = PyLong_AsLongLongAndOverflow(obj, &overflow);
+    }
+    if (obj == Py_None) {
+        data = std::monostate{};
+        type = DataType::None;
+    } else if (PyLong_Check(obj) && !overflow) {
+        data = static_cast<int64_t>(number);
+        type = DataType::Int;
+    } else if (PyFloat_Check(obj)) {
+        data = PyFloat_AsDouble(obj);
+        type = DataType::Double;
+    } else if (PyUnicode_Check(obj)) {
+        if (!graph_string_from(obj, str)) return -1;
+        data = str;
+        type = DataType::String;
+    } else {
+        Py_INCREF(obj);
+        data = obj;
+        type = DataType::PyObject;
+    }
+    Py_XDECREF(old);
+    return 0;
+}
+
 typedef struct {
     PyObject_HEAD
     NodeType_ type_tag;
@@ -30,6 +82,8 @@ static void GraphNode_dealloc(GraphNode* self) {
     if (self->data_type == DataType::PyObject) {
         Py_XDECREF(std::get<PyObject*>(self->data));
     }
+    std::destroy_at(&self->name);
+    std::destroy_at(&self->data);
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
@@ -48,37 +102,15 @@ static PyObject* GraphNode_new(PyTypeObject* type, PyObject* args, PyObject* kwd
 
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "s|O", kwlist, &name, &data)) {
         PyErr_SetString(PyExc_ValueError, "Invalid arguments: Expected (str, object)");
+        Py_DECREF(self);
         return NULL;
     }
 
     self->name = std::string(name);
     self->internal_id = -1;
-    if (data == Py_None)
-    {
-        self->data = std::monostate{};
-        self->data_type = DataType::None;
-    }
-    else if (PyLong_Check(data))
-    {
-        self->data = static_cast<int64_t>(PyLong_AsLongLong(data));
-        self->data_type = DataType::Int;
-    }
-    else if (PyFloat_Check(data))
-    {
-        self->data = PyFloat_AsDouble(data);
-        self->data_type = DataType::Double;
-    }
-    else if (PyUnicode_Check(data))
-    {
-        const char* s = PyUnicode_AsUTF8(data);
-        self->data = std::string(s);
-        self->data_type = DataType::String;
-    }
-    else
-    {
-        self->data = data;
-        self->data_type = DataType::PyObject;
-        Py_INCREF(data);
+    if (graph_data_from(data, self->data, self->data_type) < 0) {
+        Py_DECREF(self);
+        return NULL;
     }
 
     return reinterpret_cast<PyObject*>(self);
@@ -120,7 +152,7 @@ static PyObject* GraphNode_str(GraphNode* self) {
 static PyObject* GraphNode_get(GraphNode* self, void *closure) {
     const char* attr = reinterpret_cast<const char*>(closure);
     if (strcmp(attr, "name") == 0) {
-        return PyUnicode_FromString(self->name.c_str());
+        return graph_string_to(self->name);
     } else if (strcmp(attr, "data") == 0) {
         switch (self->data_type) {
             case DataType::None:
@@ -130,7 +162,7 @@ static PyObject* GraphNode_get(GraphNode* self, void *closure) {
             case DataType::Double:
                 return PyFloat_FromDouble(std::get<double>(self->data));
             case DataType::String:
-                return PyUnicode_FromString(std::get<std::string>(self->data).c_str());
+                return graph_string_to(std::get<std::string>(self->data));
             case DataType::PyObject:
                 Py_INCREF(std::get<PyObject*>(self->data));
                 return std::get<PyObject*>(self->data);
@@ -151,29 +183,9 @@ static int GraphNode_set(GraphNode* self, PyObject *value, void *closure) {
             PyErr_SetString(PyExc_TypeError, "name must be a string");
             return -1;
         }
-        self->name = PyUnicode_AsUTF8(value);
+        if (!graph_string_from(value, self->name)) return -1;
     } else if (strcmp(attr, "data") == 0) {
-        if (self->data_type == DataType::PyObject) {
-            Py_XDECREF(std::get<PyObject*>(self->data));
-        }
-
-        if (value == Py_None) {
-            self->data = std::monostate{};
-            self->data_type = DataType::None;
-        } else if (PyLong_Check(value)) {
-            self->data = static_cast<int64_t>(PyLong_AsLongLong(value));
-            self->data_type = DataType::Int;
-        } else if (PyFloat_Check(value)) {
-            self->data = PyFloat_AsDouble(value);
-            self->data_type = DataType::Double;
-        } else if (PyUnicode_Check(value)) {
-            self->data = std::string(PyUnicode_AsUTF8(value));
-            self->data_type = DataType::String;
-        } else {
-            Py_INCREF(value);
-            self->data = value;
-            self->data_type = DataType::PyObject;
-        }
+        return graph_data_from(value, self->data, self->data_type);
     } else {
         PyErr_SetString(PyExc_AttributeError, "Unknown attribute");
         return -1;
-- 
2.43.0


From 752e6d069fdccf035eec432b50ca8a09a6dab187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:11 +0000
Subject: [PATCH 58/78] fix: tries listed only the last character of a prefix
 that is a word and kept parts of strings whose insertion failed

---
 pydatastructs/strings/trie.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/strings/trie.py b/pydatastructs/strings/trie.py
index cdf6666..d1c8a85 100644
--- a/pydatastructs/strings/trie.py
+++ b/pydatastructs/strings/trie.py
@@ -73,14 +73,22 @@ class Trie(object):
         None
         """
         walk = self.root
+        parent, first = None, None
         for char in string:
             if walk.get_child(char) is None:
                 newNode = TrieNode(char)
-                walk.add_child(newNode)
+                if first is None:
+                    # New nodes are attached when all of them are there
+                    # so that no part of the string is left if this fails.
+                    parent, first = walk, newNode
+                else:
+                    walk.add_child(newNode)
                 walk = newNode
             else:
                 walk = walk.get_child(char)
         walk.is_terminal = True
+        if first is not None:
+            parent.add_child(first)
 
     def is_present(self, string: str) -> bool:
         """
@@ -195,7 +203,7 @@ class Trie(object):
                 return strings
             prefix += char
         if walk.is_terminal:
-            strings.append(walk.char)
+            strings.append(prefix)
         for child in walk._children:
             _collect(prefix, walk.get_child(child), strings)
         return strings
-- 
2.43.0


From edf8dd9ca6fa86bc9679b27d5eb4e7ccdeeb50c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:11 +0000
Subject: [PATCH 59/78] fix: multisets counted elements whose insertion or
 removal failed

---
 .../miscellaneous_data_structures/multiset.py | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/multiset.py b/pydatastructs/miscellaneous_data_structures/multiset.py
index 3979782..37137e7 100644
--- a/pydatastructs/miscellaneous_data_structures/multiset.py
+++ b/pydatastructs/miscellaneous_data_structures/multiset.py
@@ -14,17 +14,27 @@ class Multiset:
             self.add(arg)
 
     def add(self, element):
-        self.counter[element]  = self.counter.get(element, 0) + 1
+        count = self.counter.get(element, 0)
+        self.counter[element] = count + 1
+        if count == 0:
+            try:
+                self.tree.insert(element)
+            except BaseException:
+                self.counter[element] = count
+                raise
         self._n += 1
-        if self.counter[element] == 1:
-            self.tree.insert(element)
 
     def remove(self, element):
-        if self.counter[element] == 1:
-            self.tree.delete(element)
-        if self.counter.get(element, 0) > 0:
+        count = self.counter[element]
+        if count > 0:
+            self.counter[element] = count - 1
+            if count == 1:
+                try:
+                    self.tree.delete(element)
+                except BaseException:
+                    self.counter[element] = count
+                    raise
             self._n -= 1
-            self.counter[element] -= 1
 
     def lower_bound(self, element):
         return self.tree.lower_bound(element)
-- 
2.43.0


From 38453d16ec943000acd1f62a64967afe2d7e822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 60/78] fix: string search missed or invented matches of
 unusual characters

---
 pydatastructs/strings/algorithms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/strings/algorithms.py b/pydatastructs/strings/algorithms.py
index 1e26b94..caec048 100644
--- a/pydatastructs/strings/algorithms.py
+++ b/pydatastructs/strings/algorithms.py
@@ -161,7 +161,8 @@ def _rabin_karp(text, query):
         text_hash[i+1] = (text_hash[i] + ord(text[i]) * p_pow[i]) % MOD
     for i in range(t - q + 1):
         curr_hash = (text_hash[i + q] + MOD - text_hash[i]) % MOD
-        if curr_hash == (query_hash * p_pow[i]) % MOD:
+        if curr_hash == (query_hash * p_pow[i]) % MOD and \
+            text[i:i + q] == query:
             positions.append(i)
 
     return positions
@@ -240,8 +241,8 @@ def _z_function(text, query):
         return positions
 
     fct = _z_vector(text, query)
-    for pos in range(len(fct)):
-        if fct[pos] == len(query):
+    for pos in range(fct._last_pos_filled + 1):
+        if fct[pos] >= len(query):
             positions.append(pos)
 
     return positions
-- 
2.43.0


From cb42e10998f727f3db5bb10d60bc7a884dbc1e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:43 +0000
Subject: [PATCH 61/78] fix: permutations and subsequences were wrong for equal
 elements, elements other than integers and empty arrays

---
 .../linear_data_structures/algorithms.py      | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 58a4e4c..ec796d9 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -811,6 +811,11 @@ def quick_sort(array: Array, **kwargs) -> Array:
 
     return array
 
+def _element_type(array):
+    if hasattr(array, '_dtype'):
+        return array._dtype
+    return type(array[0]) if len(array) > 0 else int
+
 def longest_common_subsequence(seq1: OneDimensionalArray, seq2: OneDimensionalArray,
                                **kwargs) -> OneDimensionalArray:
     """
@@ -880,7 +885,7 @@ def longest_common_subsequence(seq1: OneDimensionalArray, seq2: OneDimensionalAr
                 else:
                     check_mat[i][j] = check_mat[i][j-1]
 
-    return OneDimensionalArray(seq1._dtype, check_mat[row][col][-1])
+    return OneDimensionalArray(_element_type(seq1), check_mat[row][col][-1])
 
 def is_ordered(array, **kwargs):
     """
@@ -1130,6 +1135,9 @@ def longest_increasing_subsequence(array, **kwargs):
         longest_increasing_subsequence,
         kwargs.get('backend', Backend.PYTHON))
     n = len(array)
+    dtype = _element_type(array)
+    if n == 0:
+        return OneDimensionalArray(dtype, 0)
     dp = OneDimensionalArray(int, n)
     dp.fill(0)
     parent = OneDimensionalArray(int, n)
@@ -1147,20 +1155,20 @@ def longest_increasing_subsequence(array, **kwargs):
             ceil = lower_bound(curr_array, array[i])
             dp[ceil] = i
             parent[i] = dp[ceil - 1]
-    ans = DynamicOneDimensionalArray(int, 0)
+    ans = DynamicOneDimensionalArray(dtype, 0)
     last_index = dp[length]
     while last_index != -1:
         ans.append(array[last_index])
         last_index = parent[last_index]
     n = ans._last_pos_filled + 1
-    ans_ODA = OneDimensionalArray(int, n)
+    ans_ODA = OneDimensionalArray(dtype, n)
     for i in range(n):
         ans_ODA[n-1-i] = ans[i]
     return ans_ODA
 
 def _permutation_util(array, start, end, comp, perm_comp):
     size = end - start + 1
-    permute = OneDimensionalArray(int, size)
+    permute = OneDimensionalArray(_element_type(array), size)
     for i, j in zip(range(start, end + 1), range(size)):
         permute[j] = array[i]
     i = size - 1
@@ -1322,10 +1330,10 @@ def prev_permutation(array, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
 
     def _prev_permutation_comp(x, y, _comp):
-        if _comp(x, y):
-            return True
-        else:
+        if _comp(y, x):
             return False
+        else:
+            return True
 
     return _permutation_util(array, start, end, comp,
                              _prev_permutation_comp)
-- 
2.43.0


From d8228a33a439b1485ced9788da2fc0e37b9f2d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:09 +0000
Subject: [PATCH 62/78] fix: keep subtree sizes of every self balancing order
 statistic tree

Rotations of red black, splay and Cartesian trees, joins, splits and
replaced nodes left the sizes as they were, so that select and rank of
trees made with is_order_statistic=True gave wrong answers.
---
 pydatastructs/trees/binary_trees.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index a89c1e1..f362456 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -716,6 +716,14 @@ class SelfBalancingBinaryTree(BinarySearchTree):
             return _trees.SelfBalancingBinaryTree(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
         return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
 
+    def _update_sizes_after_rotation(self, *indices):
+        # The nodes are given bottom up, the sizes above them do not change.
+        if self.is_order_statistic:
+            for idx in indices:
+                self.tree[idx].size = (
+                    self.left_size(self.tree[idx]) +
+                    self.right_size(self.tree[idx]) + 1)
+
     def _right_rotate(self, j, k):
         y = self.tree[k].right
         if y is not None:
@@ -732,6 +740,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
         kp = self.tree[k].parent
         if kp is None:
             self.root_idx = k
+        self._update_sizes_after_rotation(j, k)
 
     def _left_right_rotate(self, j, k):
         i = self.tree[k].right
@@ -752,6 +761,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
                 self.tree[ip].right = i
         else:
             self.root_idx = i
+        self._update_sizes_after_rotation(j, k, i)
 
     def _right_left_rotate(self, j, k):
         i = self.tree[k].left
@@ -772,6 +782,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
                 self.tree[ip].right = i
         else:
             self.root_idx = i
+        self._update_sizes_after_rotation(j, k, i)
 
     def _left_rotate(self, j, k):
         y = self.tree[k].left
@@ -789,6 +800,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
         kp = self.tree[k].parent
         if kp is None:
             self.root_idx = k
+        self._update_sizes_after_rotation(j, k)
 
 class CartesianTree(SelfBalancingBinaryTree):
     """
@@ -880,6 +892,7 @@ class CartesianTree(SelfBalancingBinaryTree):
         new_node.parent = node.parent
         new_node.left = node.left
         new_node.right = node.right
+        new_node.size = node.size
         self.tree[node_idx] = new_node
         self._bubble_up(node_idx)
         self._trickle_down(node_idx, to_leaf=False)
@@ -1200,6 +1213,7 @@ class SplayTree(SelfBalancingBinaryTree):
                     node_copy.right = node.right + idx_update
                 if node.parent is not None:
                     node_copy.parent = node.parent + idx_update
+                node_copy.size = node.size
                 tree[i + idx_update] = node_copy
         tree._num = self.tree._num + other.tree._num
         tree._last_pos_filled = tree._size - 1
@@ -1208,6 +1222,7 @@ class SplayTree(SelfBalancingBinaryTree):
         self.tree[self.root_idx].right = \
             other.root_idx + idx_update
         self.tree[other.root_idx + idx_update].parent = self.root_idx
+        self._update_size(self.root_idx)
 
     def split(self, x):
         """
@@ -1245,6 +1260,7 @@ class SplayTree(SelfBalancingBinaryTree):
             for idx in indices:
                 self.tree[idx] = None
             self.tree[self.root_idx].right = None
+            self._update_size(self.root_idx)
         return other
 
 class RedBlackTree(SelfBalancingBinaryTree):
@@ -1367,6 +1383,7 @@ class RedBlackTree(SelfBalancingBinaryTree):
         new_node.parent = node.parent
         new_node.left = node.left
         new_node.right = node.right
+        new_node.size = node.size
         self.tree[node_idx] = new_node
         if node.is_root:
             self.tree[node_idx].is_root = True
@@ -1531,6 +1548,7 @@ class RedBlackTree(SelfBalancingBinaryTree):
             new_indices = self.tree.delete(node_idx1)
             if new_indices is not None:
                 self.root_idx = new_indices[root_key]
+            self._update_size(self.root_idx)
 
     def __leaf_case(self, node_idx, node_idx1):
         walk = node_idx
-- 
2.43.0


From 0dff4b0ea3ac50f50b9a71da8d749459250b9227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:44 +0000
Subject: [PATCH 63/78] fix: C++ search trees compared keys and indices by
 identity, dropped errors and references and lost subtree sizes

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp  |  68 ++-
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 463 +++++++++---------
 .../trees/_backend/cpp/BinaryTree.hpp         |  52 +-
 .../_backend/cpp/BinaryTreeTraversal.hpp      |  17 +-
 .../trees/_backend/cpp/CartesianTree.hpp      |  71 ++-
 .../trees/_backend/cpp/RedBlackTree.hpp       |  76 +--
 .../_backend/cpp/SelfBalancingBinaryTree.hpp  |  50 +-
 .../trees/_backend/cpp/SplayTree.hpp          | 150 ++++--
 pydatastructs/trees/_backend/cpp/Treap.hpp    |  22 +-
 pydatastructs/utils/_backend/cpp/TreeNode.hpp |   2 +-
 10 files changed, 589 insertions(+), 382 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index f0de0b0..5604777 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -5,6 +5,7 @@
 #include <Python.h>
 #include <structmember.h>
 #include <cstdlib>
+#include <string>
 #include "../../../utils/_backend/cpp/utils.hpp"
 #include "../../../utils/_backend/cpp/TreeNode.hpp"
 #include "../../../linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp"
@@ -14,26 +15,28 @@
 
 typedef struct {
     PyObject_HEAD
-    SelfBalancingBinaryTree* sbbt;
+    BinaryTree* binary_tree;
     ArrayForTrees* tree;
+    BinarySearchTree* bst; // the object itself
+    SelfBalancingBinaryTree* sbbt; // the object itself
 } AVLTree;
 
 static void AVLTree_dealloc(AVLTree *self) {
-    Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
+    SelfBalancingBinaryTree_dealloc(reinterpret_cast<SelfBalancingBinaryTree*>(self));
 }
 
 static PyObject* AVLTree___new__(PyTypeObject* type, PyObject *args, PyObject *kwds) {
-    AVLTree *self;
-    self = reinterpret_cast<AVLTree*>(type->tp_alloc(type, 0));
-
     if (PyType_Ready(&SelfBalancingBinaryTreeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
     }
-    PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
+    PyObject* p = SelfBalancingBinaryTree___new__(type, args, kwds);
+    if ( !p ) {
+        return NULL;
+    }
+    AVLTree* self = reinterpret_cast<AVLTree*>(p);
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
-    self->tree = self->sbbt->bst->binary_tree->tree;
 
-    return reinterpret_cast<PyObject*>(self);
+    return p;
 }
 
 static PyObject* AVLTree___str__(AVLTree *self) {
@@ -41,9 +44,21 @@ static PyObject* AVLTree___str__(AVLTree *self) {
 }
 
 static PyObject* AVLTree_set_tree(AVLTree* self, PyObject *args) {
-    ArrayForTrees* arr = reinterpret_cast<ArrayForTrees*>(PyObject_GetItem(args, PyZero));
-    self->sbbt->bst->binary_tree->tree = arr;
-    self->tree = self->sbbt->bst->binary_tree->tree;
+    PyObject* arr;
+    if (!PyArg_ParseTuple(args, "O", &arr)) {
+        return NULL;
+    }
+    // The arrays module has type objects of its own, both types have the same members.
+    std::string type_name = Py_TYPE(arr)->tp_name;
+    if (type_name != ArrayForTreesType.tp_name && type_name != DynamicOneDimensionalArrayType.tp_name) {
+        PyErr_SetString(PyExc_TypeError, "Expected a dynamic array.");
+        return NULL;
+    }
+    BinaryTree* bt = self->sbbt->bst->binary_tree;
+    Py_INCREF(arr);
+    Py_INCREF(arr);
+    Py_SETREF(bt->tree, reinterpret_cast<ArrayForTrees*>(arr));
+    Py_SETREF(self->tree, reinterpret_cast<ArrayForTrees*>(arr));
     Py_RETURN_NONE;
 }
 
@@ -202,20 +217,20 @@ static PyObject* AVLTree__balance_insertion(AVLTree* self, PyObject *args) {
         long bf = PyLong_AsLong(AVLTree_balance_factor(self, Py_BuildValue("(O)", bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])));
         if (bf != 1 && bf != 0 && bf != -1) {
             PyObject* l = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left;
-            if (l != Py_None && l == last && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(l)])->left == last2last) {
+            if (l != Py_None && BinaryTree__same_index(l, last) && BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(l)])->left, last2last)) {
                 AVLTree__right_rotate(self, Py_BuildValue("(OO)", walk, last));
             }
 
             PyObject* r = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right;
-            if (r != Py_None && r == last && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(r)])->right == last2last) {
+            if (r != Py_None && BinaryTree__same_index(r, last) && BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(r)])->right, last2last)) {
                 AVLTree__left_rotate(self, Py_BuildValue("(OO)", walk, last));
             }
 
-            if (l != Py_None && l == last && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(l)])->right == last2last) {
+            if (l != Py_None && BinaryTree__same_index(l, last) && BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(l)])->right, last2last)) {
                 AVLTree__left_right_rotate(self, Py_BuildValue("(OO)", walk, last));
             }
 
-            if (r != Py_None && r == last && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(r)])->left == last2last) {
+            if (r != Py_None && BinaryTree__same_index(r, last) && BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(r)])->left, last2last)) {
                 AVLTree__right_left_rotate(self, Py_BuildValue("(OO)", walk, last));
             }
         }
@@ -235,10 +250,12 @@ static PyObject* AVLTree_insert(AVLTree* self, PyObject *args) {
     if (!PyArg_ParseTuple(args, "O|O", &key, &data)) { // data is optional
         return NULL;
     }
-    SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
+    PyObject* idx = BinarySearchTree__insert(self->sbbt->bst, key, data);
+    if (!idx) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
-    long s = bt->size - 1;
-    AVLTree__balance_insertion(self, Py_BuildValue("(OO)", PyLong_FromLong(s), reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[s])->parent));
+    AVLTree__balance_insertion(self, Py_BuildValue("(OO)", idx, BinaryTree__node(bt, idx)->parent));
 
     Py_RETURN_NONE;
 }
@@ -297,17 +314,30 @@ static PyObject* AVLTree__balance_delete(AVLTree* self, PyObject *args) {
 
 static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
     PyObject* key = PyObject_GetItem(args, PyZero);
+    if (!key) {
+        return NULL;
+    }
+    PyObject* idx = AVLTree_search(self, Py_BuildValue("(O)", key), PyDict_New());
+    if (!idx) {
+        return NULL;
+    }
+    if (idx == Py_None) {
+        Py_RETURN_NONE;
+    }
 
     PyObject* kwd_bal = PyDict_New();
     PyDict_SetItemString(kwd_bal, "balancing_info", PyLong_FromLong(1));
     PyObject* a = SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", key), kwd_bal);
+    if (!a) {
+        return NULL;
+    }
     AVLTree__balance_delete(self, Py_BuildValue("(OO)", a, key));
 
     Py_RETURN_TRUE;
 }
 
 static PyObject* AVLTree_root_idx(AVLTree *self, void *closure) {
-    return self->sbbt->bst->binary_tree->root_idx;
+    return BinarySearchTree_root_idx(self->sbbt->bst, closure);
 }
 
 
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 5573847..1b2e7c7 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -18,7 +18,8 @@ typedef struct {
 } BinarySearchTree;
 
 static void BinarySearchTree_dealloc(BinarySearchTree *self) {
-    BinaryTree_dealloc(self->binary_tree);
+    Py_XDECREF(reinterpret_cast<PyObject*>(self->binary_tree));
+    Py_XDECREF(reinterpret_cast<PyObject*>(self->tree));
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
@@ -30,8 +31,13 @@ static PyObject* BinarySearchTree___new__(PyTypeObject* type, PyObject *args, Py
         return NULL;
     }
     PyObject* bt = BinaryTree___new__(&BinaryTreeType, args, kwds);
+    if ( !bt ) {
+        Py_DECREF(self);
+        return NULL;
+    }
     self->binary_tree = reinterpret_cast<BinaryTree*>(bt);
     self->tree = reinterpret_cast<BinaryTree*>(bt)->tree;
+    Py_INCREF(self->tree);
 
     return reinterpret_cast<PyObject*>(self);
 }
@@ -76,7 +82,6 @@ static PyObject* BinarySearchTree__update_size(BinarySearchTree* self, PyObject
 }
 
 static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args, PyObject *kwds) {
-    Py_INCREF(Py_None);
     PyObject* ret_parent = Py_None;
     PyObject* key;
     static char* keywords[] = {"key","parent", NULL};
@@ -84,146 +89,145 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
         return NULL;
     }
     BinaryTree* bt = self->binary_tree;
-    Py_INCREF(Py_None);
     PyObject* parent = Py_None;
     PyObject* walk = bt->root_idx;
+    int with_parent = PyObject_IsTrue(ret_parent);
+    if (with_parent < 0) {
+        return NULL;
+    }
 
-    if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key == Py_None) {
-        Py_RETURN_NONE;
+    if (BinaryTree__node(bt, walk)->key == Py_None) {
+        walk = Py_None;
     }
 
     while (walk != Py_None) {
-        PyObject* curr_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key;
+        PyObject* curr_key = BinaryTree__node(bt, walk)->key;
 
-        if (curr_key == key) {
+        int equal = BinaryTree__equal_keys(curr_key, key);
+        if (equal < 0) {
+            return NULL;
+        }
+        if (equal) {
             break;
         }
         parent = walk;
 
-        if (!PyCallable_Check(bt->comparator)) {
-            PyErr_SetString(PyExc_ValueError, "comparator should be callable");
-            return NULL;
-        }
-        PyObject* arguments = Py_BuildValue("(OO)", key, curr_key);
-        PyObject* res = PyObject_CallObject(bt->comparator, arguments);
-        Py_DECREF(arguments);
-        if (!PyLong_Check(res)) {
-            PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
+        int comp = BinaryTree__compare(bt, key, curr_key);
+        if (comp < 0) {
             return NULL;
         }
-        long long comp = PyLong_AsLongLong(res);
 
         if (comp == 1) {
-            walk = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left;
+            walk = BinaryTree__node(bt, walk)->left;
         }
         else {
-            walk = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right;
+            walk = BinaryTree__node(bt, walk)->right;
         }
     }
 
-    Py_INCREF(Py_None);
-    if (ret_parent==Py_None || PyLong_AsLong(ret_parent)==0) {
-        return walk;
-    }
-    else {
+    if (with_parent) {
         return Py_BuildValue("(OO)",walk,parent);
     }
-    Py_RETURN_NONE; // dummy return statement, never executed
+    Py_INCREF(walk);
+    return walk;
 }
 
-static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args) {
-    Py_INCREF(Py_None);
-    PyObject* key = Py_None;
-    Py_INCREF(Py_None);
-    PyObject* data = Py_None;
-    if (!PyArg_ParseTuple(args, "O|O", &key, &data)) { // data is optional
+// Adds the node to the array and returns its index.
+static PyObject* BinarySearchTree__append_node(BinarySearchTree* self, TreeNode* new_node) {
+    BinaryTree* bt = self->binary_tree;
+    PyObject* root_key = BinaryTree__node(bt, bt->root_idx)->key;
+    PyObject* new_indices = ArrayForTrees_append(bt->tree, Py_BuildValue( "[O]", reinterpret_cast<PyObject*>(new_node)) );
+    if (!new_indices) {
         return NULL;
     }
+    if (new_indices != Py_None) {
+        bt->root_idx = PyDict_GetItem(new_indices, root_key);
+    }
+    bt->size = bt->size + 1;
+    return PyLong_FromLong(bt->tree->_last_pos_filled);
+}
 
-    PyObject* parent = PyLong_FromLong(0);
-
-    PyObject* res = BinarySearchTree_search(self, Py_BuildValue("(O)",key), PyDict_New()); // keywords should be a dictionary, so empty dictionary here as no keywords
+// Inserts the key and returns the index of its node.
+static PyObject* BinarySearchTree__insert(BinarySearchTree* self, PyObject* key, PyObject* data) {
     BinaryTree* bt = self->binary_tree;
+    PyObject* res = BinarySearchTree_search(self, Py_BuildValue("(O)",key), PyDict_New()); // keywords should be a dictionary, so empty dictionary here as no keywords
+    if (!res) {
+        return NULL;
+    }
     if (res != Py_None) {
-        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(res)])->data = data;
-        Py_RETURN_NONE;
+        Py_INCREF(data);
+        BinaryTree__node(bt, res)->data = data;
+        return res;
     }
 
-    PyObject* walk = PyLong_FromLong(PyLong_AsLong(bt->root_idx));
-    if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key == Py_None) {
-        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key = key;
-        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->data = data;
-        Py_RETURN_NONE;
+    PyObject* walk = bt->root_idx;
+    if (BinaryTree__node(bt, walk)->key == Py_None) {
+        Py_INCREF(key);
+        BinaryTree__node(bt, walk)->key = key;
+        Py_INCREF(data);
+        BinaryTree__node(bt, walk)->data = data;
+        Py_INCREF(walk);
+        return walk;
     }
 
     if (PyType_Ready(&TreeNodeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
     }
     TreeNode* new_node = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, Py_BuildValue("(OO)", key, data), PyDict_New()));
-    PyObject* prev_node = PyLong_FromLong(PyLong_AsLong(bt->root_idx));
-    bool flag = true;
+    PyObject* new_idx;
 
-    while (flag) {
-        PyObject* curr_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key;
-        if (!PyCallable_Check(bt->comparator)) {
-            PyErr_SetString(PyExc_ValueError, "comparator should be callable");
-            return NULL;
-        }
-        PyObject* arguments = Py_BuildValue("(OO)", key, curr_key);
-        PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
-        Py_DECREF(arguments);
-        if (!PyLong_Check(cres)) {
-            PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
+    while (true) {
+        int comp = BinaryTree__compare(bt, key, BinaryTree__node(bt, walk)->key);
+        if (comp < 0) {
             return NULL;
         }
-        long long comp = PyLong_AsLongLong(cres);
 
-        if (comp==0) {
-            if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right == Py_None) {
-                new_node->parent = prev_node;
-                ArrayForTrees_append(bt->tree, Py_BuildValue( "[O]", reinterpret_cast<PyObject*>(new_node)) );
-                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right = PyLong_FromLong(bt->size);
-                bt->size = bt->size + 1;
-                flag = false;
+        if (comp == 0) {
+            if (BinaryTree__node(bt, walk)->right == Py_None) {
+                new_node->parent = walk;
+                new_idx = BinarySearchTree__append_node(self, new_node);
+                if (!new_idx) {
+                    return NULL;
+                }
+                BinaryTree__node(bt, new_node->parent)->right = new_idx;
+                break;
             }
-            prev_node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right;
-            walk = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right;
+            walk = BinaryTree__node(bt, walk)->right;
         }
         else {
-            if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left == Py_None) {
-                new_node->parent = prev_node;
-                ArrayForTrees_append(bt->tree, Py_BuildValue( "[O]", reinterpret_cast<PyObject*>(new_node)) );
-                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left = PyLong_FromLong(bt->size);
-                bt->size = bt->size + 1;
-                flag = false;
+            if (BinaryTree__node(bt, walk)->left == Py_None) {
+                new_node->parent = walk;
+                new_idx = BinarySearchTree__append_node(self, new_node);
+                if (!new_idx) {
+                    return NULL;
+                }
+                BinaryTree__node(bt, new_node->parent)->left = new_idx;
+                break;
             }
-            prev_node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left;
-            walk = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left;
+            walk = BinaryTree__node(bt, walk)->left;
         }
     }
-    BinarySearchTree__update_size(self, Py_BuildValue("(O)",walk));
-    Py_RETURN_NONE;
+    BinarySearchTree__update_size(self, Py_BuildValue("(O)",new_idx));
+    Py_INCREF(new_idx);
+    return new_idx;
 }
 
-static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args, PyObject *kwds) {
-    Py_INCREF(Py_None);
+static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args) {
     PyObject* key = Py_None;
-    Py_INCREF(Py_None);
-    PyObject* balancing_info = Py_None;
-    static char* keywords[] = {"key","balancing_info", NULL};
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O", keywords, &key, &balancing_info)) {
+    PyObject* data = Py_None;
+    if (!PyArg_ParseTuple(args, "O|O", &key, &data)) { // data is optional
         return NULL;
     }
-    PyObject* kwd_parent = PyDict_New();
-    PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
-    PyObject* tup = BinarySearchTree_search(self, Py_BuildValue("(O)",key), kwd_parent);
-    PyObject* walk = PyTuple_GetItem(tup, 0);
-    PyObject* parent = PyTuple_GetItem(tup, 1);
-    Py_INCREF(Py_None);
-    PyObject* a = Py_None;
-    if (walk == Py_None) {
-        Py_RETURN_NONE;
+    if (!BinarySearchTree__insert(self, key, data)) {
+        return NULL;
     }
+    Py_RETURN_NONE;
+}
+
+// Deletes the node at index walk whose parent is at index parent, returns the
+// index of the lowest node whose subtree changed.
+static PyObject* BinarySearchTree__delete_at(BinarySearchTree* self, PyObject* walk, PyObject* parent) {
+    PyObject* a = Py_None;
     BinaryTree* bt = self->binary_tree;
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left == Py_None && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right == Py_None) {
         if (parent == Py_None) {
@@ -231,7 +235,7 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key = Py_None;
         }
         else {
-            if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left == walk) {
+            if (BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left, walk)) {
                 Py_INCREF(Py_None);
                 reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left = Py_None;
             }
@@ -243,6 +247,9 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
             PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->key;
             PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",walk));
+            if (!new_indices) {
+                return NULL;
+            }
             if (new_indices != Py_None) {
                 a = PyDict_GetItem(new_indices, par_key);
                 bt->root_idx = PyDict_GetItem(new_indices, root_key);
@@ -277,6 +284,9 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
             PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(par)])->key;
             PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",twalk));
+            if (!new_indices) {
+                return NULL;
+            }
             if (new_indices != Py_None) {
                 a = PyDict_GetItem(new_indices, par_key);
                 bt->root_idx = PyDict_GetItem(new_indices, root_key);
@@ -299,14 +309,25 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(child)])->key;
             Py_INCREF(Py_None);
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->parent = Py_None;
+            PyObject* grand_children[] = {BinaryTree__node(bt, child)->left, BinaryTree__node(bt, child)->right};
+            for (PyObject* grand_child : grand_children) {
+                if (grand_child != Py_None) {
+                    BinaryTree__node(bt, grand_child)->parent = bt->root_idx;
+                }
+            }
             PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",child));
+            if (!new_indices) {
+                return NULL;
+            }
             if (new_indices != Py_None) {
                 bt->root_idx = PyDict_GetItem(new_indices, root_key);
             }
+            a = bt->root_idx;
+            BinarySearchTree__update_size(self, Py_BuildValue("(O)",a));
         }
         else {
-            if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left == walk) {
+            if (BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left, walk)) {
                 reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left = child;
             }
             else {
@@ -317,16 +338,44 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
             PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->key;
             PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",walk));
+            if (!new_indices) {
+                return NULL;
+            }
             if (new_indices != Py_None) {
-                parent = PyDict_GetItem(new_indices, par_key);
-                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(child)])->parent = PyDict_GetItem(new_indices, root_key);
-                a = PyDict_GetItem(new_indices, root_key);
+                a = PyDict_GetItem(new_indices, par_key);
                 bt->root_idx = PyDict_GetItem(new_indices, root_key);
             }
             BinarySearchTree__update_size(self, Py_BuildValue("(O)",a));
         }
     }
 
+    Py_INCREF(a);
+    return a;
+}
+
+static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args, PyObject *kwds) {
+    PyObject* key = Py_None;
+    PyObject* balancing_info = Py_None;
+    static char* keywords[] = {"key","balancing_info", NULL};
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O", keywords, &key, &balancing_info)) {
+        return NULL;
+    }
+    PyObject* kwd_parent = PyDict_New();
+    PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
+    PyObject* tup = BinarySearchTree_search(self, Py_BuildValue("(O)",key), kwd_parent);
+    if (!tup) {
+        return NULL;
+    }
+    PyObject* walk = PyTuple_GetItem(tup, 0);
+    PyObject* parent = PyTuple_GetItem(tup, 1);
+    if (walk == Py_None) {
+        Py_RETURN_NONE;
+    }
+    PyObject* a = BinarySearchTree__delete_at(self, walk, parent);
+    if (!a) {
+        return NULL;
+    }
+
     if (balancing_info != Py_None) {
         if (PyLong_AsLong(balancing_info) == 1) {
             return a;
@@ -347,8 +396,13 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key == Py_None) {
         Py_RETURN_NONE;
     }
-    if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key == bound_key) {
+    int equal = BinaryTree__equal_keys(BinaryTree__node(bt, node_idx)->key, bound_key);
+    if (equal < 0) {
+        return NULL;
+    }
+    if (equal) {
         if (is_upper == Py_False) {
+            Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key);
             return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key;
         }
         else {
@@ -356,18 +410,10 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
         }
     }
 
-    if (!PyCallable_Check(bt->comparator)) {
-        PyErr_SetString(PyExc_ValueError, "comparator should be callable");
+    int comp = BinaryTree__compare(bt, BinaryTree__node(bt, node_idx)->key, bound_key);
+    if (comp < 0) {
         return NULL;
     }
-    PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key, bound_key);
-    PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
-    Py_DECREF(arguments);
-    if (!PyLong_Check(cres)) {
-        PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
-        return NULL;
-    }
-    long long comp = PyLong_AsLongLong(cres);
 
     if (comp == 1) {
         return BinarySearchTree__bound_helper(self, Py_BuildValue("(OOO)",reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->right, bound_key, is_upper));
@@ -378,6 +424,7 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
             return res_bound;
         }
         else {
+            Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key);
             return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key;
         }
     }
@@ -385,11 +432,17 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
 
 static PyObject* BinarySearchTree_lower_bound(BinarySearchTree* self, PyObject *args, PyObject* kwds) {
     PyObject* key = PyObject_GetItem(args, PyZero);
+    if (!key) {
+        return NULL;
+    }
     return BinarySearchTree__bound_helper(self, Py_BuildValue("(OOO)", self->binary_tree->root_idx, key, Py_False));
 }
 
 static PyObject* BinarySearchTree_upper_bound(BinarySearchTree* self, PyObject *args, PyObject* kwds) {
     PyObject* key = PyObject_GetItem(args, PyZero);
+    if (!key) {
+        return NULL;
+    }
     return BinarySearchTree__bound_helper(self, Py_BuildValue("(OOO)", self->binary_tree->root_idx, key, Py_True));
 }
 
@@ -405,7 +458,11 @@ static PyObject* BinarySearchTree__simple_path(BinarySearchTree* self, PyObject
     while (!stack.empty()) {
         long node = stack.top();
         stack.pop();
-        if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node])->key == key) {
+        int equal = BinaryTree__equal_keys(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node])->key, key);
+        if (equal < 0) {
+            return NULL;
+        }
+        if (equal) {
             node_idx = node;
             break;
         }
@@ -419,22 +476,25 @@ static PyObject* BinarySearchTree__simple_path(BinarySearchTree* self, PyObject
     if (node_idx == -1) {
         return path;
     }
-    while (node_idx != 0) {
-        PyList_Append(path, PyLong_FromLong(node_idx));
-        node_idx = PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node_idx])->parent);
+    PyObject* walk = PyLong_FromLong(node_idx);
+    while (walk != Py_None) {
+        PyList_Append(path, walk);
+        walk = BinaryTree__node(bt, walk)->parent;
     }
-    PyList_Append(path, PyLong_FromLong(0));
     PyList_Reverse(path);
     return path;
 }
 
 static PyObject* BinarySearchTree__lca_1(BinarySearchTree* self, PyObject* args) {
-    long j = PyLong_AsLong(PyObject_GetItem(args, PyZero));
-    long k = PyLong_AsLong(PyObject_GetItem(args, PyOne));
+    PyObject* key1 = PyObject_GetItem(args, PyZero);
+    PyObject* key2 = PyObject_GetItem(args, PyOne);
     BinaryTree* bt = self->binary_tree;
     PyObject* root = bt->root_idx;
-    PyObject* path1 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",PyLong_FromLong(j),root));
-    PyObject* path2 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",PyLong_FromLong(k),root));
+    PyObject* path1 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",key1,root));
+    PyObject* path2 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",key2,root));
+    if (!path1 || !path2) {
+        return NULL;
+    }
     long n = PyLong_AsLong(PyLong_FromSsize_t(PyList_Size(path1)));
     long m = PyLong_AsLong(PyLong_FromSsize_t(PyList_Size(path2)));
     if (n==0 || m==0) {
@@ -442,26 +502,18 @@ static PyObject* BinarySearchTree__lca_1(BinarySearchTree* self, PyObject* args)
         return NULL;
     }
     long i = 0;
-    j = 0;
-    while (i<n && j<m) {
-        if (PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i))) != PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(j)))) {
-            return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i-1))))])->key;
-        }
-        i += 1;
-        j += 1;
-    }
-
+    long j = 0;
     while (i<n && j<m) {
-        if (PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i))) < PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(j)))) {
-            return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(n-1))))])->key;
-        }
-        else if (PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i))) > PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(j)))) {
+        if (!BinaryTree__same_index(PyList_GetItem(path1, i), PyList_GetItem(path2, j))) {
             break;
         }
         i += 1;
         j += 1;
     }
-    return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(m-1))))])->key;
+    // The paths have the nodes above index i in common.
+    PyObject* ancestor = BinaryTree__node(bt, PyList_GetItem(path1, i-1))->key;
+    Py_INCREF(ancestor);
+    return ancestor;
 }
 
 static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args) {
@@ -471,85 +523,42 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
 
     PyObject* curr_root = bt->root_idx;
     PyObject* u = BinarySearchTree_search(self, Py_BuildValue("(O)",j), PyDict_New());
-    PyObject* v = BinarySearchTree_search(self, Py_BuildValue("(O)",k), PyDict_New());
-
-    if (u==Py_None || v==Py_None) {
-        PyErr_SetString(PyExc_ValueError, "One of the nodes doesn't exist.");
-        return NULL;
-    }
-
-    if (!PyCallable_Check(bt->comparator)) {
-        PyErr_SetString(PyExc_ValueError, "comparator should be callable");
+    if (!u) {
         return NULL;
     }
-    PyObject* arguments1 = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(u)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
-    PyObject* cres1 = PyObject_CallObject(bt->comparator, arguments1);
-    Py_DECREF(arguments1);
-    if (!PyLong_Check(cres1)) {
-        PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
+    PyObject* v = BinarySearchTree_search(self, Py_BuildValue("(O)",k), PyDict_New());
+    if (!v) {
         return NULL;
     }
-    long long u_left = PyLong_AsLongLong(cres1);
 
-    if (!PyCallable_Check(bt->comparator)) {
-        PyErr_SetString(PyExc_ValueError, "comparator should be callable");
-        return NULL;
-    }
-    PyObject* arguments2 = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(v)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
-    PyObject* cres2 = PyObject_CallObject(bt->comparator, arguments2);
-    Py_DECREF(arguments2);
-    if (!PyLong_Check(cres2)) {
-        PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
+    if (u==Py_None || v==Py_None) {
+        PyErr_SetString(PyExc_ValueError, "One of the nodes doesn't exist.");
         return NULL;
     }
-    long long v_left = PyLong_AsLongLong(cres2);
-
-    while (!(u_left ^ v_left)) {
-        if (u_left && v_left) {
-            curr_root = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->left;
-        }
-        else {
-            curr_root = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->right;
-        }
 
-        if (curr_root == u || curr_root == v) {
-            if (curr_root == Py_None) {
-                Py_RETURN_NONE;
-            }
-            return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key;
-        }
-
-        if (!PyCallable_Check(bt->comparator)) {
-            PyErr_SetString(PyExc_ValueError, "comparator should be callable");
+    while (!BinaryTree__same_index(curr_root, u) && !BinaryTree__same_index(curr_root, v)) {
+        int u_left = BinaryTree__compare(bt, BinaryTree__node(bt, u)->key, BinaryTree__node(bt, curr_root)->key);
+        if (u_left < 0) {
             return NULL;
         }
-        PyObject* arguments1 = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(u)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
-        PyObject* cres1 = PyObject_CallObject(bt->comparator, arguments1);
-        Py_DECREF(arguments1);
-        if (!PyLong_Check(cres1)) {
-            PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
+        int v_left = BinaryTree__compare(bt, BinaryTree__node(bt, v)->key, BinaryTree__node(bt, curr_root)->key);
+        if (v_left < 0) {
             return NULL;
         }
-        u_left = PyLong_AsLongLong(cres1);
-
-        if (!PyCallable_Check(bt->comparator)) {
-            PyErr_SetString(PyExc_ValueError, "comparator should be callable");
-            return NULL;
+        if (u_left ^ v_left) {
+            break;
         }
-        PyObject* arguments2 = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(v)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
-        PyObject* cres2 = PyObject_CallObject(bt->comparator, arguments2);
-        Py_DECREF(arguments2);
-        if (!PyLong_Check(cres2)) {
-            PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
-            return NULL;
+        if (u_left && v_left) {
+            curr_root = BinaryTree__node(bt, curr_root)->left;
+        }
+        else {
+            curr_root = BinaryTree__node(bt, curr_root)->right;
         }
-        v_left = PyLong_AsLongLong(cres2);
     }
 
-    if (curr_root == Py_None) {
-        Py_RETURN_NONE;
-    }
-    return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key;
+    PyObject* ancestor = BinaryTree__node(bt, curr_root)->key;
+    Py_INCREF(ancestor);
+    return ancestor;
 }
 
 static PyObject* BinarySearchTree_lowest_common_ancestor(BinarySearchTree* self, PyObject* args) {
@@ -562,7 +571,7 @@ static PyObject* BinarySearchTree_lowest_common_ancestor(BinarySearchTree* self,
         return NULL;
     }
 
-    if (algorithm == PyOne) {
+    if (BinaryTree__same_index(algorithm, PyOne)) {
         return BinarySearchTree__lca_1(self, Py_BuildValue("(OO)",j,k));
     }
     else {
@@ -573,14 +582,17 @@ static PyObject* BinarySearchTree_lowest_common_ancestor(BinarySearchTree* self,
 static PyObject* BinarySearchTree_rank(BinarySearchTree* self, PyObject* args) {
     PyObject* x = PyObject_GetItem(args, PyZero);
     PyObject* walk = BinarySearchTree_search(self, Py_BuildValue("(O)",x), PyDict_New());
+    if (!walk) {
+        return NULL;
+    }
     if (walk == Py_None) {
         Py_RETURN_NONE;
     }
     BinaryTree* bt = self->binary_tree;
     long r = BinarySearchTree_left_size(self, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])) + 1;
-    while (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key != reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key) {
+    while (!BinaryTree__same_index(walk, bt->root_idx)) {
         PyObject* p = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->parent;
-        if (walk == reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->right) {
+        if (BinaryTree__same_index(walk, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->right)) {
             r = r + BinarySearchTree_left_size(self, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])) + 1;
         }
         walk = p;
@@ -589,7 +601,14 @@ static PyObject* BinarySearchTree_rank(BinarySearchTree* self, PyObject* args) {
 }
 
 static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args) {
-    long i = PyLong_AsLong(PyObject_GetItem(args, PyZero));
+    PyObject* arg = PyObject_GetItem(args, PyZero);
+    if (!arg) {
+        return NULL;
+    }
+    long i = PyLong_AsLong(arg);
+    if (i == -1 && PyErr_Occurred()) {
+        return NULL;
+    }
     i = i - 1;
     if (i < 0) {
         PyErr_SetString(PyExc_ValueError, "Expected a positive integer");
@@ -604,6 +623,7 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
     while (walk != Py_None) {
         long l = BinarySearchTree_left_size(self, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)]));
         if (i == l) {
+            Py_INCREF(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)]);
             return bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)];
         }
         PyObject* left_walk = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left;
@@ -613,18 +633,13 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
             return NULL;
         }
         if (i < l) {
-            if (!PyCallable_Check(bt->comparator)) {
-                PyErr_SetString(PyExc_ValueError, "comparator should be callable");
-                return NULL;
-            }
-            PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(left_walk)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key);
-            PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
-            Py_DECREF(arguments);
-            if (!PyLong_Check(cres)) {
-                PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
-                return NULL;
+            int comp = 0;
+            if (left_walk != Py_None) {
+                comp = BinaryTree__compare(bt, BinaryTree__node(bt, left_walk)->key, BinaryTree__node(bt, walk)->key);
+                if (comp < 0) {
+                    return NULL;
+                }
             }
-            long long comp = PyLong_AsLongLong(cres);
 
             if (left_walk != Py_None && comp) {
                 walk = left_walk;
@@ -634,18 +649,13 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
             }
         }
         else {
-            if (!PyCallable_Check(bt->comparator)) {
-                PyErr_SetString(PyExc_ValueError, "comparator should be callable");
-                return NULL;
+            int comp = 1;
+            if (right_walk != Py_None) {
+                comp = BinaryTree__compare(bt, BinaryTree__node(bt, right_walk)->key, BinaryTree__node(bt, walk)->key);
+                if (comp < 0) {
+                    return NULL;
+                }
             }
-            PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(right_walk)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key);
-            PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
-            Py_DECREF(arguments);
-            if (!PyLong_Check(cres)) {
-                PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
-                return NULL;
-            }
-            long long comp = PyLong_AsLongLong(cres);
 
             if (right_walk != Py_None && (!comp)) {
                 walk = right_walk;
@@ -660,9 +670,23 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
 }
 
 static PyObject* BinarySearchTree_root_idx(BinarySearchTree *self, void *closure) {
+    Py_INCREF(self->binary_tree->root_idx);
     return self->binary_tree->root_idx;
 }
 
+static PyObject* BinarySearchTree_comparator(BinarySearchTree *self, void *closure) {
+    Py_INCREF(self->binary_tree->comparator);
+    return self->binary_tree->comparator;
+}
+
+static PyObject* BinarySearchTree_size(BinarySearchTree *self, void *closure) {
+    return PyLong_FromLong(self->binary_tree->size);
+}
+
+static PyObject* BinarySearchTree_is_order_statistic(BinarySearchTree *self, void *closure) {
+    return PyBool_FromLong(self->binary_tree->is_order_statistic);
+}
+
 
 static struct PyMethodDef BinarySearchTree_PyMethodDef[] = {
     {"insert", (PyCFunction) BinarySearchTree_insert, METH_VARARGS | METH_KEYWORDS, NULL},
@@ -681,11 +705,14 @@ static struct PyMethodDef BinarySearchTree_PyMethodDef[] = {
 
 static PyGetSetDef BinarySearchTree_GetterSetters[] = {
     {"root_idx", (getter) BinarySearchTree_root_idx, NULL, "returns the index of the tree's root", NULL},
+    {"comparator", (getter) BinarySearchTree_comparator, NULL, "returns the comparator function", NULL},
+    {"size", (getter) BinarySearchTree_size, NULL, "returns the size of the tree", NULL},
+    {"is_order_statistic", (getter) BinarySearchTree_is_order_statistic, NULL, "returns whether the tree is an order statistic tree", NULL},
     {NULL}  /* Sentinel */
 };
 
 static PyMemberDef BinarySearchTree_PyMemberDef[] = {
-    {"tree", T_OBJECT_EX, offsetof(BinarySearchTree, tree), 0, "tree"},
+    {"tree", T_OBJECT_EX, offsetof(BinarySearchTree, tree), READONLY, "tree"},
     {NULL}  /* Sentinel */
 };
 
diff --git a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
index b07336d..3cc2d6b 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
@@ -20,6 +20,8 @@ typedef struct {
 } BinaryTree;
 
 static void BinaryTree_dealloc(BinaryTree *self) {
+    Py_XDECREF(reinterpret_cast<PyObject*>(self->tree));
+    Py_XDECREF(self->comparator);
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
@@ -80,6 +82,45 @@ static PyObject* BinaryTree___new__(PyTypeObject* type, PyObject *args, PyObject
     return reinterpret_cast<PyObject*>(self);
 }
 
+static TreeNode* BinaryTree__node(BinaryTree* self, PyObject* idx) {
+    return reinterpret_cast<TreeNode*>(self->tree->_one_dimensional_array->_data[PyLong_AsLong(idx)]);
+}
+
+// Indices are equal when their values are, no matter which objects hold them.
+static bool BinaryTree__same_index(PyObject* j, PyObject* k) {
+    return j == k || (j != Py_None && k != Py_None && PyLong_AsLong(j) == PyLong_AsLong(k));
+}
+
+// 1 if the keys are equal, 0 if they aren't and -1 if an exception was raised.
+static int BinaryTree__equal_keys(PyObject* key1, PyObject* key2) {
+    return PyObject_RichCompareBool(key1, key2, Py_EQ);
+}
+
+// The result of the comparator, 1 or 0, or -1 if an exception was raised.
+static int BinaryTree__compare(BinaryTree* self, PyObject* key1, PyObject* key2) {
+    if (!PyCallable_Check(self->comparator)) {
+        PyErr_SetString(PyExc_ValueError, "comparator should be callable");
+        return -1;
+    }
+    PyObject* arguments = Py_BuildValue("(OO)", key1, key2);
+    if (!arguments) {
+        return -1;
+    }
+    PyObject* res = PyObject_CallObject(self->comparator, arguments);
+    Py_DECREF(arguments);
+    if (!res) {
+        return -1;
+    }
+    if (!PyLong_Check(res)) {
+        Py_DECREF(res);
+        PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
+        return -1;
+    }
+    int comp = PyObject_IsTrue(res);
+    Py_DECREF(res);
+    return comp;
+}
+
 static PyObject* BinaryTree_insert(PyTypeObject* type, PyObject *args, PyObject *kwds) {
     PyErr_SetString(PyExc_NotImplementedError, "This is an abstract method.");
     return NULL;
@@ -104,12 +145,15 @@ static PyObject* BinaryTree___str__(BinaryTree *self) {
         if (reinterpret_cast<PyObject*>(node) != Py_None) {
             PyObject* out;
             if (node->isCartesianTreeNode == true) {
-                out = Py_BuildValue("(OOOOO)", node->left, node->key, PyFloat_FromDouble(node->priority), node->data, node->right);
+                out = Py_BuildValue("(OOdOO)", node->left, node->key, node->priority, node->data, node->right);
             }
             else {
                 out = Py_BuildValue("(OOOO)", node->left, node->key, node->data, node->right);
             }
-            Py_INCREF(out);
+            if (!out) {
+                Py_DECREF(list);
+                return NULL;
+            }
             PyList_SET_ITEM(list, i, out);
         }
         else {
@@ -117,7 +161,9 @@ static PyObject* BinaryTree___str__(BinaryTree *self) {
             PyList_SET_ITEM(list, i, empty_string);
         }
     }
-    return PyObject_Str(list);
+    PyObject* str = PyObject_Str(list);
+    Py_DECREF(list);
+    return str;
 }
 
 static struct PyMethodDef BinaryTree_PyMethodDef[] = {
diff --git a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
index b430706..b1839eb 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
@@ -8,6 +8,7 @@
 #include <stack>
 #include <queue>
 #include <string>
+#include <vector>
 #include "../../../utils/_backend/cpp/utils.hpp"
 #include "../../../utils/_backend/cpp/TreeNode.hpp"
 #include "../../../linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp"
@@ -25,7 +26,7 @@ typedef struct {
 } BinaryTreeTraversal;
 
 static void BinaryTreeTraversal_dealloc(BinaryTreeTraversal *self) {
-    BinaryTree_dealloc(self->tree);
+    Py_XDECREF(reinterpret_cast<PyObject*>(self->tree));
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
@@ -72,9 +73,11 @@ static PyObject* BinaryTreeTraversal___new__(PyTypeObject* type, PyObject *args,
         self->tree = reinterpret_cast<BinarySearchTree*>(tree)->binary_tree;
     }
     else {
+        Py_DECREF(self);
         PyErr_SetString(PyExc_ValueError, "Not a supported type for BinaryTreeTraversal.");
         return NULL;
     }
+    Py_INCREF(self->tree);
     return reinterpret_cast<PyObject*>(self);
 }
 
@@ -128,30 +131,26 @@ static PyObject* BinaryTreeTraversal__post_order(BinaryTreeTraversal* self, PyOb
     PyObject* node = PyObject_GetItem(args, PyZero);
     PyObject* visit = PyList_New(0);
     ArrayForTrees* tree = self->tree->tree;
-    long size = self->tree->size;
     std::stack<PyObject*> s;
     s.push(node);
-    PyObject* last = PyList_New(size);
-    for (int i=0;i<size;i++) {
-        PyList_SetItem(last, i, PyZero);
-    }
+    std::vector<bool> last(tree->_one_dimensional_array->_size, false);
 
     while (!s.empty()) {
         PyObject* node = s.top();
         PyObject* l = reinterpret_cast<TreeNode*>(tree->_one_dimensional_array->_data[PyLong_AsLong(node)])->left;
         PyObject* r = reinterpret_cast<TreeNode*>(tree->_one_dimensional_array->_data[PyLong_AsLong(node)])->right;
         bool cl = false, cr = false;
-        if (l == Py_None || PyList_GetItem(last, PyLong_AsLong(l)) == PyOne) {
+        if (l == Py_None || last[PyLong_AsLong(l)]) {
             cl = true;
         }
-        if (r == Py_None || PyList_GetItem(last, PyLong_AsLong(r)) == PyOne) {
+        if (r == Py_None || last[PyLong_AsLong(r)]) {
             cr = true;
         }
         if (cl && cr) {
             s.pop();
             TreeNode* curr_node = reinterpret_cast<TreeNode*>(tree->_one_dimensional_array->_data[PyLong_AsLong(node)]);
             PyList_Append(visit, reinterpret_cast<PyObject*>(curr_node));
-            PyList_SetItem(last, PyLong_AsLong(node), PyOne);
+            last[PyLong_AsLong(node)] = true;
             continue;
         }
         if (!cr) {
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index 012d212..292cbe9 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -14,26 +14,28 @@
 
 typedef struct {
     PyObject_HEAD
-    SelfBalancingBinaryTree* sbbt;
+    BinaryTree* binary_tree;
     ArrayForTrees* tree;
+    BinarySearchTree* bst; // the object itself
+    SelfBalancingBinaryTree* sbbt; // the object itself
 } CartesianTree;
 
 static void CartesianTree_dealloc(CartesianTree *self) {
-    Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
+    SelfBalancingBinaryTree_dealloc(reinterpret_cast<SelfBalancingBinaryTree*>(self));
 }
 
 static PyObject* CartesianTree___new__(PyTypeObject* type, PyObject *args, PyObject *kwds) {
-    CartesianTree *self;
-    self = reinterpret_cast<CartesianTree*>(type->tp_alloc(type, 0));
-
     if (PyType_Ready(&SelfBalancingBinaryTreeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
     }
-    PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
+    PyObject* p = SelfBalancingBinaryTree___new__(type, args, kwds);
+    if ( !p ) {
+        return NULL;
+    }
+    CartesianTree* self = reinterpret_cast<CartesianTree*>(p);
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
-    self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
 
-    return reinterpret_cast<PyObject*>(self);
+    return p;
 }
 
 static PyObject* CartesianTree___str__(CartesianTree *self) {
@@ -49,10 +51,13 @@ static PyObject* Cartesian_Tree__bubble_up(CartesianTree* self, PyObject *args)
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
     PyObject* parent_idx = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->parent;
-    TreeNode* parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)]);
+    TreeNode* parent = NULL;
+    if (parent_idx != Py_None) {
+        parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)]);
+    }
 
     while ((node->parent != Py_None) && (parent->priority > node->priority)) {
-        if (parent->right == node_idx) {
+        if (BinaryTree__same_index(parent->right, node_idx)) {
             SelfBalancingBinaryTree__left_rotate(self->sbbt, Py_BuildValue("OO", parent_idx, node_idx));
         }
         else {
@@ -72,9 +77,15 @@ static PyObject* Cartesian_Tree__bubble_up(CartesianTree* self, PyObject *args)
 
 static PyObject* Cartesian_Tree__trickle_down(CartesianTree* self, PyObject *args) {
     PyObject* node_idx = PyObject_GetItem(args, PyZero);
+    bool to_leaf = PyObject_GetItem(args, PyOne) == Py_True;
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
     while (node->left != Py_None || node->right != Py_None) {
+        if (!to_leaf &&
+            !(node->left != Py_None && BinaryTree__node(bt, node->left)->priority < node->priority) &&
+            !(node->right != Py_None && BinaryTree__node(bt, node->right)->priority < node->priority)) {
+            break;
+        }
         if (node->left == Py_None) {
             SelfBalancingBinaryTree__left_rotate(self->sbbt, Py_BuildValue("OO", node_idx, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->right));
         }
@@ -104,25 +115,28 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
-    SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
-    PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    double priority_value = PyFloat_AsDouble(priority);
+    if (priority_value == -1.0 && PyErr_Occurred()) {
+        return NULL;
+    }
+    PyObject* node_idx = BinarySearchTree__insert(self->sbbt->bst, key, data);
+    if (!node_idx) {
+        return NULL;
+    }
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
     if (PyType_Ready(&TreeNodeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
     }
     TreeNode* new_node = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, Py_BuildValue("(OO)", key, data), PyDict_New()));
     new_node->isCartesianTreeNode = true;
-    new_node->priority = PyFloat_AsDouble(priority);
+    new_node->priority = priority_value;
     new_node->parent = node->parent;
     new_node->left = node->left;
     new_node->right = node->right;
+    new_node->size = node->size;
     bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)] = reinterpret_cast<PyObject*>(new_node);
-    if (node->is_root) {
-        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->is_root = true;
-    }
-    else {
-        Cartesian_Tree__bubble_up(self, Py_BuildValue("(O)", node_idx));
-    }
+    Cartesian_Tree__bubble_up(self, Py_BuildValue("(O)", node_idx));
+    Cartesian_Tree__trickle_down(self, Py_BuildValue("(OO)", node_idx, Py_False));
     Py_RETURN_NONE;
 }
 
@@ -135,17 +149,26 @@ static PyObject* CartesianTree_delete(CartesianTree* self, PyObject *args, PyObj
         return NULL;
     }
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    if (!node_idx) {
+        return NULL;
+    }
     if (node_idx != Py_None) {
-        Cartesian_Tree__trickle_down(self, Py_BuildValue("(O)", node_idx));
-        PyObject* kwd_bal = PyDict_New();
-        PyDict_SetItemString(kwd_bal, "balancing_info", balancing_info);
-        return SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", key), kwd_bal);
+        BinaryTree* bt = self->sbbt->bst->binary_tree;
+        Cartesian_Tree__trickle_down(self, Py_BuildValue("(OO)", node_idx, Py_True));
+        PyObject* a = BinarySearchTree__delete_at(self->sbbt->bst, node_idx, BinaryTree__node(bt, node_idx)->parent);
+        if (!a) {
+            return NULL;
+        }
+        if (PyObject_IsTrue(balancing_info) == 1) {
+            return a;
+        }
+        Py_RETURN_TRUE;
     }
     Py_RETURN_NONE;
 }
 
 static PyObject* CartesianTree_root_idx(CartesianTree *self, void *closure) {
-    return self->sbbt->bst->binary_tree->root_idx;
+    return BinarySearchTree_root_idx(self->sbbt->bst, closure);
 }
 
 
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 3604031..17ee791 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -14,26 +14,28 @@
 
 typedef struct {
     PyObject_HEAD
-    SelfBalancingBinaryTree* sbbt;
+    BinaryTree* binary_tree;
     ArrayForTrees* tree;
+    BinarySearchTree* bst; // the object itself
+    SelfBalancingBinaryTree* sbbt; // the object itself
 } RedBlackTree;
 
 static void RedBlackTree_dealloc(RedBlackTree *self) {
-    Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
+    SelfBalancingBinaryTree_dealloc(reinterpret_cast<SelfBalancingBinaryTree*>(self));
 }
 
 static PyObject* RedBlackTree___new__(PyTypeObject* type, PyObject *args, PyObject *kwds) {
-    RedBlackTree *self;
-    self = reinterpret_cast<RedBlackTree*>(type->tp_alloc(type, 0));
-
     if (PyType_Ready(&SelfBalancingBinaryTreeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
     }
-    PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
+    PyObject* p = SelfBalancingBinaryTree___new__(type, args, kwds);
+    if ( !p ) {
+        return NULL;
+    }
+    RedBlackTree* self = reinterpret_cast<RedBlackTree*>(p);
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
-    self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
 
-    return reinterpret_cast<PyObject*>(self);
+    return p;
 }
 
 static PyObject* RedBlackTree___str__(RedBlackTree *self) {
@@ -44,6 +46,7 @@ static PyObject* RedBlackTree__get_parent(RedBlackTree *self, PyObject* args) {
     long node_idx = PyLong_AsLong(PyObject_GetItem(args, PyZero));
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     PyObject* parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node_idx])->parent;
+    Py_INCREF(parent);
     return parent;
 }
 
@@ -53,6 +56,7 @@ static PyObject* RedBlackTree__get_grand_parent(RedBlackTree *self, PyObject* ar
 
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     PyObject* grand_parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)])->parent;
+    Py_INCREF(grand_parent);
     return grand_parent;
 }
 
@@ -66,12 +70,14 @@ static PyObject* RedBlackTree__get_sibling(RedBlackTree *self, PyObject* args) {
 
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)]);
-    if (node_idx == node->left) {
+    if (BinaryTree__same_index(node_idx, node->left)) {
         PyObject* sibling_idx = node->right;
+        Py_INCREF(sibling_idx);
         return sibling_idx;
     }
     else {
         PyObject* sibling_idx = node->left;
+        Py_INCREF(sibling_idx);
         return sibling_idx;
     }
 
@@ -91,7 +97,7 @@ static PyObject* RedBlackTree__is_onleft(RedBlackTree *self, PyObject* args) {
     PyObject* parent_idx = RedBlackTree__get_parent(self, Py_BuildValue("(O)", node_idx));
 
     BinaryTree* bt = self->sbbt->bst->binary_tree;
-    if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)])->left == node_idx) {
+    if (BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent_idx)])->left, node_idx)) {
         Py_RETURN_TRUE;
     }
     Py_RETURN_FALSE;
@@ -161,11 +167,18 @@ static PyObject* RedBlackTree_insert(RedBlackTree *self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O|O", &key, &data)) { // data is optional
         return NULL;
     }
-    SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
-    PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    long size = self->sbbt->bst->binary_tree->size;
+    PyObject* root_key = BinaryTree__node(self->sbbt->bst->binary_tree, self->sbbt->bst->binary_tree->root_idx)->key;
+    PyObject* node_idx = BinarySearchTree__insert(self->sbbt->bst, key, data);
+    if (!node_idx) {
+        return NULL;
+    }
 
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
+    if (bt->size == size && root_key != Py_None) {
+        Py_RETURN_NONE; // the key was in the tree already
+    }
 
     if (PyType_Ready(&TreeNodeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
@@ -174,6 +187,7 @@ static PyObject* RedBlackTree_insert(RedBlackTree *self, PyObject* args) {
     new_node->parent = node->parent;
     new_node->left = node->left;
     new_node->right = node->right;
+    new_node->size = node->size;
     bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)] = reinterpret_cast<PyObject*>(new_node);
 
     if (node->is_root) {
@@ -242,7 +256,7 @@ static PyObject* RedBlackTree__transplant_values(RedBlackTree* self, PyObject *a
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->data = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx2)])->data;
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->left = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx2)])->left;
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx2)])->right;
-        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx1)])->parent == Py_None;
+        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx1)])->parent = Py_None;
 
         return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
     }
@@ -364,7 +378,7 @@ static PyObject* RedBlackTree___fix_deletion(RedBlackTree* self, PyObject *args)
 
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
     long color = node->color;
-    while (node_idx != bt->root_idx && color == 0) {
+    while (!BinaryTree__same_index(node_idx, bt->root_idx) && color == 0) {
         PyObject* sibling_idx = RedBlackTree__get_sibling(self, Py_BuildValue("(O)", node_idx));
         PyObject* parent_idx = RedBlackTree__get_parent(self, Py_BuildValue("(O)", node_idx));
         if (sibling_idx == Py_None) {
@@ -431,21 +445,15 @@ static PyObject* RedBlackTree__remove_node(RedBlackTree* self, PyObject *args) {
 
     PyObject* parent = RedBlackTree__get_parent(self, Py_BuildValue("(O)", node_idx));
     PyObject* a = parent;
-    if (RedBlackTree__is_leaf(self, Py_BuildValue("(O)", node_idx)) == Py_True) {
-        PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->key;
-        PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
-        PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)", node_idx));
-        if (new_indices != Py_None) {
-            a = PyDict_GetItem(new_indices, par_key);
-            bt->root_idx = PyDict_GetItem(new_indices, root_key);
-        }
+    PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->key;
+    PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
+    PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)", node_idx));
+    if (!new_indices) {
+        return NULL;
     }
-    else if (RedBlackTree__has_one_child(self, Py_BuildValue("(O)", node_idx)) == Py_True) {
-        PyObject* child = RedBlackTree__replace_node(self, Py_BuildValue("(O)", node_idx));
-        parent = RedBlackTree__get_parent(self, Py_BuildValue("(O)", node_idx));
-        PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->key;
-        PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
-        PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)", node_idx));
+    if (new_indices != Py_None) {
+        a = PyDict_GetItem(new_indices, par_key);
+        bt->root_idx = PyDict_GetItem(new_indices, root_key);
     }
     BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", a));
     Py_RETURN_NONE;
@@ -466,6 +474,7 @@ static PyObject* RedBlackTree__delete_root(RedBlackTree* self, PyObject *args) {
         if (new_indices != Py_None) {
             bt->root_idx = PyDict_GetItem(new_indices, root_key);
         }
+        BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", bt->root_idx));
     }
     Py_RETURN_NONE;
 }
@@ -523,13 +532,13 @@ static PyObject* RedBlackTree___one_child_case(RedBlackTree* self, PyObject *arg
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->right = walk1;
         }
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk1)])->parent = parent;
-        PyObject* a = RedBlackTree__remove_node(self, Py_BuildValue("(O)", walk));
         if (RedBlackTree___walk1_walk_isblack(self, Py_BuildValue("(OO)", PyLong_FromLong(walk_original_color), walk1)) == Py_True) {
             RedBlackTree___fix_deletion(self, Py_BuildValue("(O)", walk1));
         }
         else {
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk1)])->color = 0;
         }
+        RedBlackTree__remove_node(self, Py_BuildValue("(O)", walk));
     }
     Py_RETURN_NONE;
 }
@@ -550,9 +559,14 @@ static PyObject* RedBlackTree___two_child_case(RedBlackTree* self, PyObject *arg
 
 static PyObject* RedBlackTree_delete(RedBlackTree* self, PyObject *args, PyObject *kwds) {
     PyObject* key = PyObject_GetItem(args, PyZero);
-    BinaryTree* bt = self->sbbt->bst->binary_tree;
+    if (!key) {
+        return NULL;
+    }
 
     PyObject* walk = BinarySearchTree_search(self->sbbt->bst, Py_BuildValue("(O)", key), PyDict_New());
+    if (!walk) {
+        return NULL;
+    }
     if (walk != Py_None) {
         PyObject* walk1 = RedBlackTree__replace_node(self, Py_BuildValue("(O)", walk));
         if (RedBlackTree__has_two_child(self, Py_BuildValue("(O)", walk)) == Py_True) {
@@ -579,7 +593,7 @@ static PyObject* RedBlackTree_search(RedBlackTree* self, PyObject *args, PyObjec
 }
 
 static PyObject* RedBlackTree_root_idx(RedBlackTree *self, void *closure) {
-    return self->sbbt->bst->binary_tree->root_idx;
+    return BinarySearchTree_root_idx(self->sbbt->bst, closure);
 }
 
 
diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index 2f7fbf3..4fe66db 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -5,34 +5,37 @@
 #include <Python.h>
 #include <structmember.h>
 #include <cstdlib>
+#include <initializer_list>
 #include "../../../utils/_backend/cpp/utils.hpp"
 #include "../../../utils/_backend/cpp/TreeNode.hpp"
 #include "../../../linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp"
 #include "../../../linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp"
 #include "BinarySearchTree.hpp"
 
+// Inherited methods are called for objects of the derived types, so every type
+// starts with the members of the type it is derived from.
 typedef struct {
     PyObject_HEAD
-    BinarySearchTree* bst;
+    BinaryTree* binary_tree;
     ArrayForTrees* tree;
+    BinarySearchTree* bst; // the object itself
 } SelfBalancingBinaryTree;
 
 static void SelfBalancingBinaryTree_dealloc(SelfBalancingBinaryTree *self) {
-    Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
+    BinarySearchTree_dealloc(reinterpret_cast<BinarySearchTree*>(self));
 }
 
 static PyObject* SelfBalancingBinaryTree___new__(PyTypeObject* type, PyObject *args, PyObject *kwds) {
-    SelfBalancingBinaryTree *self;
-    self = reinterpret_cast<SelfBalancingBinaryTree*>(type->tp_alloc(type, 0));
-
     if (PyType_Ready(&BinarySearchTreeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
     }
-    PyObject* p = BinarySearchTree___new__(&BinarySearchTreeType, args, kwds);
-    self->bst = reinterpret_cast<BinarySearchTree*>(p);
-    self->tree = reinterpret_cast<BinarySearchTree*>(p)->binary_tree->tree;
+    PyObject* p = BinarySearchTree___new__(type, args, kwds);
+    if ( !p ) {
+        return NULL;
+    }
+    reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst = reinterpret_cast<BinarySearchTree*>(p);
 
-    return reinterpret_cast<PyObject*>(self);
+    return p;
 }
 
 static PyObject* SelfBalancingBinaryTree___str__(SelfBalancingBinaryTree *self) {
@@ -64,11 +67,11 @@ static PyObject* SelfBalancingBinaryTree__simple_path(SelfBalancingBinaryTree* s
 }
 
 static PyObject* SelfBalancingBinaryTree__lca_1(SelfBalancingBinaryTree* self, PyObject *args) {
-    return BinarySearchTree__simple_path(self->bst, args);
+    return BinarySearchTree__lca_1(self->bst, args);
 }
 
 static PyObject* SelfBalancingBinaryTree__lca_2(SelfBalancingBinaryTree* self, PyObject *args) {
-    return BinarySearchTree__simple_path(self->bst, args);
+    return BinarySearchTree__lca_2(self->bst, args);
 }
 
 static PyObject* SelfBalancingBinaryTree_lowest_common_ancestor(SelfBalancingBinaryTree* self, PyObject *args) {
@@ -83,6 +86,17 @@ static PyObject* SelfBalancingBinaryTree_select(SelfBalancingBinaryTree* self, P
     return BinarySearchTree_select(self->bst, args);
 }
 
+// The nodes are given bottom up, the sizes above them do not change.
+static void SelfBalancingBinaryTree__update_sizes_after_rotation(SelfBalancingBinaryTree* self, std::initializer_list<PyObject*> indices) {
+    BinaryTree* bt = self->bst->binary_tree;
+    if (bt->is_order_statistic) {
+        for (PyObject* idx : indices) {
+            TreeNode* node = BinaryTree__node(bt, idx);
+            node->size = BinarySearchTree_left_size(self->bst, node) + BinarySearchTree_right_size(self->bst, node) + 1;
+        }
+    }
+}
+
 static PyObject* SelfBalancingBinaryTree__right_rotate(SelfBalancingBinaryTree* self, PyObject *args) {
     PyObject* j = PyObject_GetItem(args, PyZero);
     PyObject* k = PyObject_GetItem(args, PyOne);
@@ -94,7 +108,7 @@ static PyObject* SelfBalancingBinaryTree__right_rotate(SelfBalancingBinaryTree*
     reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(j)])->left = y;
     reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(j)])->parent;
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent != Py_None) {
-        if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left == j) {
+        if (BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left, j)) {
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left = k;
         }
         else {
@@ -107,6 +121,7 @@ static PyObject* SelfBalancingBinaryTree__right_rotate(SelfBalancingBinaryTree*
     if (kp == Py_None) {
         bt->root_idx = k;
     }
+    SelfBalancingBinaryTree__update_sizes_after_rotation(self, {j, k});
     Py_RETURN_NONE;
 }
 
@@ -121,7 +136,7 @@ static PyObject* SelfBalancingBinaryTree__left_rotate(SelfBalancingBinaryTree* s
     reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(j)])->right = y;
     reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(j)])->parent;
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent != Py_None) {
-        if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left == j) {
+        if (BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left, j)) {
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(k)])->parent)])->left = k;
         }
         else {
@@ -134,6 +149,7 @@ static PyObject* SelfBalancingBinaryTree__left_rotate(SelfBalancingBinaryTree* s
     if (kp == Py_None) {
         bt->root_idx = k;
     }
+    SelfBalancingBinaryTree__update_sizes_after_rotation(self, {j, k});
     Py_RETURN_NONE;
 }
 
@@ -165,7 +181,7 @@ static PyObject* SelfBalancingBinaryTree__left_right_rotate(SelfBalancingBinaryT
 
     PyObject* ip = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(i)])->parent;
     if (ip != Py_None) {
-        if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left == j) {
+        if (BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left, j)) {
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left = i;
         }
         else {
@@ -175,6 +191,7 @@ static PyObject* SelfBalancingBinaryTree__left_right_rotate(SelfBalancingBinaryT
     else {
         bt->root_idx = i;
     }
+    SelfBalancingBinaryTree__update_sizes_after_rotation(self, {j, k, i});
     Py_RETURN_NONE;
 }
 
@@ -206,7 +223,7 @@ static PyObject* SelfBalancingBinaryTree__right_left_rotate(SelfBalancingBinaryT
 
     PyObject* ip = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(i)])->parent;
     if (ip != Py_None) {
-        if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left == j) {
+        if (BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left, j)) {
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(ip)])->left = i;
         }
         else {
@@ -216,11 +233,12 @@ static PyObject* SelfBalancingBinaryTree__right_left_rotate(SelfBalancingBinaryT
     else {
         bt->root_idx = i;
     }
+    SelfBalancingBinaryTree__update_sizes_after_rotation(self, {j, k, i});
     Py_RETURN_NONE;
 }
 
 static PyObject* SelfBalancingBinaryTree_root_idx(SelfBalancingBinaryTree *self, void *closure) {
-    return self->bst->binary_tree->root_idx;
+    return BinarySearchTree_root_idx(self->bst, closure);
 }
 
 
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index b41eb3d..2f3cc0c 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -15,28 +15,30 @@
 
 typedef struct {
     PyObject_HEAD
-    SelfBalancingBinaryTree* sbbt;
+    BinaryTree* binary_tree;
     ArrayForTrees* tree;
+    BinarySearchTree* bst; // the object itself
+    SelfBalancingBinaryTree* sbbt; // the object itself
     PyTypeObject* type;
 } SplayTree;
 
 static void SplayTree_dealloc(SplayTree *self) {
-    Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
+    SelfBalancingBinaryTree_dealloc(reinterpret_cast<SelfBalancingBinaryTree*>(self));
 }
 
 static PyObject* SplayTree___new__(PyTypeObject* type, PyObject *args, PyObject *kwds) {
-    SplayTree *self;
-    self = reinterpret_cast<SplayTree*>(type->tp_alloc(type, 0));
-
     if (PyType_Ready(&SelfBalancingBinaryTreeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
     }
-    PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
+    PyObject* p = SelfBalancingBinaryTree___new__(type, args, kwds);
+    if ( !p ) {
+        return NULL;
+    }
+    SplayTree* self = reinterpret_cast<SplayTree*>(p);
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
-    self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
     self->type = type;
 
-    return reinterpret_cast<PyObject*>(self);
+    return p;
 }
 
 static PyObject* SplayTree___str__(SplayTree *self) {
@@ -48,7 +50,7 @@ static PyObject* SplayTree__zig(SplayTree *self, PyObject* args) {
     PyObject* p = PyObject_GetItem(args, PyOne);
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
-    if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left == x) {
+    if (BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left, x)) {
         SelfBalancingBinaryTree__right_rotate(self->sbbt, Py_BuildValue("(OO)", p, x));
     }
     else {
@@ -107,13 +109,13 @@ static PyObject* SplayTree_splay(SplayTree *self, PyObject* args) {
         if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent == Py_None) {
             SplayTree__zig(self, Py_BuildValue("(OO)", x, p));
         }
-        else if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left == x && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->left == p) {
+        else if (BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left, x) && BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->left, p)) {
             SplayTree__zig_zig(self, Py_BuildValue("(OO)", x, p));
         }
-        else if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->right == x && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->right == p) {
+        else if (BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->right, x) && BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->right, p)) {
             SplayTree__zag_zag(self, Py_BuildValue("(OO)", x, p));
         }
-        else if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left == x && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->right == p) {
+        else if (BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->left, x) && BinaryTree__same_index(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->parent)])->right, p)) {
             SplayTree__zag_zig(self, Py_BuildValue("(O)", p));
         }
         else {
@@ -126,29 +128,34 @@ static PyObject* SplayTree_splay(SplayTree *self, PyObject* args) {
 }
 
 static PyObject* SplayTree_insert(SplayTree *self, PyObject* args) {
-    PyObject* key = PyObject_GetItem(args, PyZero);
-    PyObject* x = PyObject_GetItem(args, PyOne);
+    PyObject* key;
+    PyObject* x = Py_None;
+    if (!PyArg_ParseTuple(args, "O|O", &key, &x)) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
-    SelfBalancingBinaryTree_insert(self->sbbt, args);
-    PyObject* kwd_parent = PyDict_New();
-    PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
-    PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), kwd_parent);
-    PyObject* e = PyTuple_GetItem(tup, 0);
-    PyObject* p = PyTuple_GetItem(tup, 1);
-    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[bt->size-1])->parent = p;
-    SplayTree_splay(self, Py_BuildValue("(OO)", e, p));
+    PyObject* e = BinarySearchTree__insert(self->sbbt->bst, key, x);
+    if (!e) {
+        return NULL;
+    }
+    SplayTree_splay(self, Py_BuildValue("(OO)", e, BinaryTree__node(bt, e)->parent));
 
     Py_RETURN_NONE;
 }
 
 static PyObject* SplayTree_delete(SplayTree *self, PyObject* args) {
     PyObject* x = PyObject_GetItem(args, PyZero);
-    BinaryTree* bt = self->sbbt->bst->binary_tree;
+    if (!x) {
+        return NULL;
+    }
 
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", x), kwd_parent);
+    if (!tup) {
+        return NULL;
+    }
     PyObject* e = PyTuple_GetItem(tup, 0);
     PyObject* p = PyTuple_GetItem(tup, 1);
     if (e == Py_None) {
@@ -161,7 +168,15 @@ static PyObject* SplayTree_delete(SplayTree *self, PyObject* args) {
 }
 
 static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
-    SplayTree* other = reinterpret_cast<SplayTree*>(PyObject_GetItem(args, PyZero));
+    PyObject* arg = PyObject_GetItem(args, PyZero);
+    if (!arg) {
+        return NULL;
+    }
+    if (!PyObject_TypeCheck(arg, Py_TYPE(self))) {
+        PyErr_SetString(PyExc_TypeError, "Expected a splay tree.");
+        return NULL;
+    }
+    SplayTree* other = reinterpret_cast<SplayTree*>(arg);
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     BinaryTree* obt = other->sbbt->bst->binary_tree;
 
@@ -174,33 +189,32 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
         minm = reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(minm)])->left;
     }
 
-    if (!PyCallable_Check(bt->comparator)) {
-        PyErr_SetString(PyExc_ValueError, "comparator should be callable");
+    int comp = BinaryTree__compare(bt, BinaryTree__node(bt, maxm)->key, BinaryTree__node(obt, minm)->key);
+    if (comp < 0) {
         return NULL;
     }
-    PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->key, reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(minm)])->key);
-    PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
-    Py_DECREF(arguments);
-    if (!PyLong_Check(cres)) {
-        PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
-        return NULL;
-    }
-    long long comp = PyLong_AsLongLong(cres);
     if (comp == 0) {
         PyErr_SetString(PyExc_ValueError, "Elements of existing Splay Tree aren't less than that of the new Splay tree.");
         return NULL;
     }
 
     SplayTree_splay(self, Py_BuildValue("(OO)", maxm, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->parent));
-    long idx_update = bt->tree->_one_dimensional_array->_size;
-    long n = obt->tree->_one_dimensional_array->_size;
-    for (int i=0; i<n; i++) {
-        PyObject* node = obt->tree->_one_dimensional_array->_data[i];
+    OneDimensionalArray* oda = bt->tree->_one_dimensional_array;
+    OneDimensionalArray* other_oda = obt->tree->_one_dimensional_array;
+    long idx_update = bt->tree->_last_pos_filled + 1;
+    long n = other_oda->_size;
+    long new_size = idx_update + n;
+    if (PyType_Ready(&TreeNodeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
+        return NULL;
+    }
+    PyObject** arr_new = reinterpret_cast<PyObject**>(std::malloc(new_size * sizeof(PyObject*)));
+    for (long i=0; i<idx_update; i++) {
+        arr_new[i] = oda->_data[i];
+    }
+    for (long i=0; i<n; i++) {
+        PyObject* node = other_oda->_data[i];
         if (node != Py_None) {
             TreeNode* treenode = reinterpret_cast<TreeNode*>(node);
-            if (PyType_Ready(&TreeNodeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
-                return NULL;
-            }
             TreeNode* node_copy = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, Py_BuildValue("(OO)", treenode->key, treenode->data), PyDict_New()));
             if (treenode->left != Py_None) {
                 node_copy->left = PyLong_FromLong(PyLong_AsLong(treenode->left) + idx_update);
@@ -208,13 +222,26 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
             if (treenode->right != Py_None) {
                 node_copy->right = PyLong_FromLong(PyLong_AsLong(treenode->right) + idx_update);
             }
-            ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node_copy));
+            if (treenode->parent != Py_None) {
+                node_copy->parent = PyLong_FromLong(PyLong_AsLong(treenode->parent) + idx_update);
+            }
+            node_copy->size = treenode->size;
+            arr_new[idx_update + i] = reinterpret_cast<PyObject*>(node_copy);
         }
         else {
-            ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node));
+            arr_new[idx_update + i] = Py_None;
         }
     }
+    std::free(oda->_data);
+    oda->_data = arr_new;
+    oda->_size = new_size;
+    bt->tree->_size = new_size;
+    bt->tree->_num = bt->tree->_num + obt->tree->_num;
+    bt->tree->_last_pos_filled = new_size - 1;
+    bt->size = new_size;
     reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = PyLong_FromLong(PyLong_AsLong(obt->root_idx) + idx_update);
+    BinaryTree__node(bt, BinaryTree__node(bt, bt->root_idx)->right)->parent = bt->root_idx;
+    BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", bt->root_idx));
 
     Py_RETURN_NONE;
 }
@@ -244,11 +271,17 @@ static PyObject* SplayTree__pre_order(SplayTree* self, PyObject *args) {
 
 static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
     PyObject* x = PyObject_GetItem(args, PyZero);
+    if (!x) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", x), kwd_parent);
+    if (!tup) {
+        return NULL;
+    }
     PyObject* e = PyTuple_GetItem(tup, 0);
     PyObject* p = PyTuple_GetItem(tup, 1);
     if (e == Py_None) {
@@ -265,27 +298,42 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
             PyErr_SetString(PyExc_ValueError, "comparator should be callable");
             return NULL;
     }
-    SplayTree* other = reinterpret_cast<SplayTree*>(SplayTree___new__(self->type, Py_BuildValue("(OOOO)", Py_None, Py_None, bt->comparator, PyZero), PyDict_New()));
+    SplayTree* other = reinterpret_cast<SplayTree*>(SplayTree___new__(self->type, Py_BuildValue("(OOOO)", Py_None, Py_None, bt->comparator, bt->is_order_statistic ? Py_True : Py_False), PyDict_New()));
+    if (!other) {
+        return NULL;
+    }
 
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right != Py_None) {
         PyObject* elements = SplayTree__pre_order(self, Py_BuildValue("(O)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right));
         for (int i=0; i<PyList_Size(elements); i++) {
-            SelfBalancingBinaryTree_insert(other->sbbt, Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->key, reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->data));
+            PyObject* res = SelfBalancingBinaryTree_insert(other->sbbt, Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->key, reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->data));
+            if (!res) {
+                return NULL;
+            }
         }
-        for (int j=PyList_Size(elements)-1; j>-1; j--) {
-            tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, j))->key), kwd_parent);
-            e = PyTuple_GetItem(tup, 0);
-            p = PyTuple_GetItem(tup, 1);
-            bt->tree->_one_dimensional_array->_data[PyLong_AsLong(e)] = Py_None;
+        std::stack<PyObject*> indices;
+        indices.push(BinaryTree__node(bt, bt->root_idx)->right);
+        while (!indices.empty()) {
+            PyObject* idx = indices.top();
+            indices.pop();
+            TreeNode* node = BinaryTree__node(bt, idx);
+            if (node->left != Py_None) {
+                indices.push(node->left);
+            }
+            if (node->right != Py_None) {
+                indices.push(node->right);
+            }
+            bt->tree->_one_dimensional_array->_data[PyLong_AsLong(idx)] = Py_None;
         }
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = Py_None;
+        BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", bt->root_idx));
     }
 
     return reinterpret_cast<PyObject*>(other);
 }
 
 static PyObject* SplayTree_root_idx(SplayTree *self, void *closure) {
-    return self->sbbt->bst->binary_tree->root_idx;
+    return BinarySearchTree_root_idx(self->sbbt->bst, closure);
 }
 
 
diff --git a/pydatastructs/trees/_backend/cpp/Treap.hpp b/pydatastructs/trees/_backend/cpp/Treap.hpp
index 5619d27..dcb9e9f 100644
--- a/pydatastructs/trees/_backend/cpp/Treap.hpp
+++ b/pydatastructs/trees/_backend/cpp/Treap.hpp
@@ -15,26 +15,28 @@
 
 typedef struct {
     PyObject_HEAD
-    CartesianTree* ct;
+    BinaryTree* binary_tree;
     ArrayForTrees* tree;
+    BinarySearchTree* bst; // the object itself
+    SelfBalancingBinaryTree* sbbt; // the object itself
+    CartesianTree* ct; // the object itself
 } Treap;
 
 static void Treap_dealloc(Treap *self) {
-    Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
+    CartesianTree_dealloc(reinterpret_cast<CartesianTree*>(self));
 }
 
 static PyObject* Treap___new__(PyTypeObject* type, PyObject *args, PyObject *kwds) {
-    Treap *self;
-    self = reinterpret_cast<Treap*>(type->tp_alloc(type, 0));
-
     if (PyType_Ready(&CartesianTreeType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
     }
-    PyObject* p = CartesianTree___new__(&CartesianTreeType, args, kwds);
-    self->ct = reinterpret_cast<CartesianTree*>(p);
-    self->tree = reinterpret_cast<CartesianTree*>(p)->sbbt->bst->binary_tree->tree;
+    PyObject* p = CartesianTree___new__(type, args, kwds);
+    if ( !p ) {
+        return NULL;
+    }
+    reinterpret_cast<Treap*>(p)->ct = reinterpret_cast<CartesianTree*>(p);
 
-    return reinterpret_cast<PyObject*>(self);
+    return p;
 }
 
 static PyObject* Treap___str__(Treap *self) {
@@ -63,7 +65,7 @@ static PyObject* Treap_insert(Treap *self, PyObject* args) {
 }
 
 static PyObject* Treap_root_idx(Treap *self, void *closure) {
-    return self->ct->sbbt->bst->binary_tree->root_idx;
+    return BinarySearchTree_root_idx(self->ct->sbbt->bst, closure);
 }
 
 
diff --git a/pydatastructs/utils/_backend/cpp/TreeNode.hpp b/pydatastructs/utils/_backend/cpp/TreeNode.hpp
index b9361a1..25f5610 100644
--- a/pydatastructs/utils/_backend/cpp/TreeNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/TreeNode.hpp
@@ -67,7 +67,7 @@ static struct PyMemberDef TreeNode_PyMemberDef[] = {
     {"left", T_OBJECT, offsetof(TreeNode, left), 0, "TreeNode left"},
     {"right", T_OBJECT, offsetof(TreeNode, right), 0, "TreeNode right"},
     {"parent", T_OBJECT, offsetof(TreeNode, parent), 0, "TreeNode parent"},
-    {"color", T_LONG, offsetof(TreeNode, size), 0, "RedBlackTreeNode color"},
+    {"color", T_LONG, offsetof(TreeNode, color), 0, "RedBlackTreeNode color"},
     {"priority", T_DOUBLE, offsetof(TreeNode, priority), 0, "CartesianTreeNode's priority"},
     {NULL},
 };
-- 
2.43.0


From 26a0f4223703190c4fdacbac7c8425eb5652122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:44 +0000
Subject: [PATCH 64/78] fix: roots of red-black trees and treaps created with a
 key had no colour or priority

---
 .../trees/_backend/cpp/RedBlackTree.hpp         |  2 ++
 pydatastructs/trees/_backend/cpp/SplayTree.hpp  |  1 +
 pydatastructs/trees/_backend/cpp/Treap.hpp      |  6 ++++++
 pydatastructs/trees/binary_trees.py             | 17 +++++++++++++++--
 4 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 17ee791..3127d19 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -34,6 +34,8 @@ static PyObject* RedBlackTree___new__(PyTypeObject* type, PyObject *args, PyObje
     }
     RedBlackTree* self = reinterpret_cast<RedBlackTree*>(p);
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
+    BinaryTree* bt = self->sbbt->bst->binary_tree;
+    BinaryTree__node(bt, bt->root_idx)->color = 0;
 
     return p;
 }
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 2f3cc0c..88e1e03 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -324,6 +324,7 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
                 indices.push(node->right);
             }
             bt->tree->_one_dimensional_array->_data[PyLong_AsLong(idx)] = Py_None;
+            bt->tree->_num -= 1;
         }
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = Py_None;
         BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", bt->root_idx));
diff --git a/pydatastructs/trees/_backend/cpp/Treap.hpp b/pydatastructs/trees/_backend/cpp/Treap.hpp
index dcb9e9f..e73a1fb 100644
--- a/pydatastructs/trees/_backend/cpp/Treap.hpp
+++ b/pydatastructs/trees/_backend/cpp/Treap.hpp
@@ -35,6 +35,12 @@ static PyObject* Treap___new__(PyTypeObject* type, PyObject *args, PyObject *kwd
         return NULL;
     }
     reinterpret_cast<Treap*>(p)->ct = reinterpret_cast<CartesianTree*>(p);
+    BinaryTree* bt = reinterpret_cast<Treap*>(p)->binary_tree;
+    TreeNode* root = BinaryTree__node(bt, bt->root_idx);
+    if (root->key != Py_None) {
+        root->isCartesianTreeNode = true;
+        root->priority = ((double) rand() / (RAND_MAX));
+    }
 
     return p;
 }
diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index f362456..bd4f5b7 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -951,7 +951,13 @@ class Treap(CartesianTree):
             if comp is None:
                 comp = lambda key1, key2: key1 < key2
             return _trees.Treap(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
-        return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        root = obj.tree[obj.root_idx]
+        if root.key is not None:
+            new_root = CartesianTreeNode(root.key, random.random(), root.data)
+            new_root.is_root = True
+            obj.tree[obj.root_idx] = new_root
+        return obj
 
     @classmethod
     def methods(cls):
@@ -1298,7 +1304,14 @@ class RedBlackTree(SelfBalancingBinaryTree):
             if comp is None:
                 comp = lambda key1, key2: key1 < key2
             return _trees.RedBlackTree(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
-        return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        root = obj.tree[obj.root_idx]
+        if root.key is not None:
+            new_root = RedBlackTreeNode(root.key, root.data)
+            new_root.is_root = True
+            new_root.color = 0
+            obj.tree[obj.root_idx] = new_root
+        return obj
 
     @classmethod
     def methods(cls):
-- 
2.43.0


From d62a5a8e562279523491e5a5946bf9fa33a0d7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:38 +0000
Subject: [PATCH 65/78] fix: C++ breadth first search crashed if the operation
 changed the graph

---
 .../graphs/_backend/cpp/Algorithms.hpp        | 21 ++++++++++++++++-
 pydatastructs/utils/_backend/cpp/utils.hpp    | 23 +++++++++++++++++++
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index 544d7dc..8228eba 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -32,6 +32,10 @@ static PyObject* breadth_first_search_adjacency_list(PyObject* self, PyObject* a
     AdjacencyListGraphNode* start_node = it->second;
     std::unordered_set<std::string> visited;
     std::queue<AdjacencyListGraphNode*> q;
+    // The operation may change the graph, the vertices in the queue are kept.
+    PyRef queued(PyList_New(0));
+    if (!queued || PyList_Append(queued.get(), reinterpret_cast<PyObject*>(start_node)) < 0)
+        return nullptr;
     q.push(start_node);
     visited.insert(start_node->name);
 
@@ -39,7 +43,19 @@ static PyObject* breadth_first_search_adjacency_list(PyObject* self, PyObject* a
         AdjacencyListGraphNode* node = q.front();
         q.pop();
 
+        PyRef neighbors(PyList_New(0));
+        if (!neighbors)
+            return nullptr;
+        std::vector<std::string> neighbor_names;
         for (const auto& [adj_name, adj_obj] : node->adjacent) {
+            if (PyList_Append(neighbors.get(), adj_obj) < 0)
+                return nullptr;
+            neighbor_names.push_back(adj_name);
+        }
+
+        for (size_t i = 0; i < neighbor_names.size(); i++) {
+            const std::string& adj_name = neighbor_names[i];
+            PyObject* adj_obj = PyList_GET_ITEM(neighbors.get(), static_cast<Py_ssize_t>(i));
             if (visited.count(adj_name)) continue;
             if (get_type_tag(adj_obj) != NodeType_::AdjacencyListGraphNode) continue;
 
@@ -80,6 +96,8 @@ static PyObject* breadth_first_search_adjacency_list(PyObject* self, PyObject* a
                 return nullptr;
             if (status == 0)
                 Py_RETURN_NONE;
+            if (PyList_Append(queued.get(), adj_obj) < 0)
+                return nullptr;
             visited.insert(adj_name);
             q.push(adj_node);
         }
@@ -127,7 +145,8 @@ static PyObject* breadth_first_search_adjacency_matrix(PyObject* self, PyObject*
         q.pop();
 
         std::string node_name = reinterpret_cast<GraphNode*>(node)->name;
-        auto& neighbors = cpp_graph->matrix[node_name];
+        // The operation may change the graph.
+        const auto neighbors = cpp_graph->matrix[node_name];
 
         for (const auto& [adj_name, connected] : neighbors) {
             if (!connected || visited.count(adj_name)) continue;
diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index 3975323..5c7005c 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -41,6 +41,29 @@ static PyObject* get_PyThree() {
 #define PyOne get_PyOne()
 #define PyTwo get_PyTwo()
 #define PyThree get_PyThree()
+
+// Owns a reference and releases it at the end of its scope.
+class PyRef {
+    PyObject* _obj;
+public:
+    explicit PyRef(PyObject* obj = nullptr) : _obj(obj) {}
+    PyRef(const PyRef&) = delete;
+    PyRef& operator=(const PyRef&) = delete;
+    ~PyRef() { Py_XDECREF(_obj); }
+    PyObject* get() const { return _obj; }
+    bool operator!() const { return _obj == nullptr; }
+    void reset(PyObject* obj) {
+        PyObject* old = _obj;
+        _obj = obj;
+        Py_XDECREF(old);
+    }
+    PyObject* release() {
+        PyObject* obj = _obj;
+        _obj = nullptr;
+        return obj;
+    }
+};
+
 static const char* _encoding = "utf-8";
 static const char* _invalid_char = "<invalid-character>";
 
-- 
2.43.0


From fd54830a3c12fe77ba5f1e5e072183377b0e7fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 66/78] fix: C++ search trees crashed if the comparator changed
 the tree

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp  |  6 +++++
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 12 +++++++---
 .../trees/_backend/cpp/BinaryTree.hpp         | 23 ++++++++++++++++++-
 .../trees/_backend/cpp/CartesianTree.hpp      |  3 +++
 .../trees/_backend/cpp/RedBlackTree.hpp       |  3 +++
 .../trees/_backend/cpp/SplayTree.hpp          | 16 ++++++++++++-
 6 files changed, 58 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index 5604777..d2a6054 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -55,6 +55,9 @@ static PyObject* AVLTree_set_tree(AVLTree* self, PyObject *args) {
         return NULL;
     }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
+    if (BinaryTree__raise_if_comparing(bt)) {
+        return NULL;
+    }
     Py_INCREF(arr);
     Py_INCREF(arr);
     Py_SETREF(bt->tree, reinterpret_cast<ArrayForTrees*>(arr));
@@ -317,6 +320,9 @@ static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
     if (!key) {
         return NULL;
     }
+    if (BinaryTree__raise_if_comparing(self->sbbt->bst->binary_tree)) {
+        return NULL;
+    }
     PyObject* idx = AVLTree_search(self, Py_BuildValue("(O)", key), PyDict_New());
     if (!idx) {
         return NULL;
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 1b2e7c7..0d4ec52 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -103,7 +103,7 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
     while (walk != Py_None) {
         PyObject* curr_key = BinaryTree__node(bt, walk)->key;
 
-        int equal = BinaryTree__equal_keys(curr_key, key);
+        int equal = BinaryTree__equal_keys(bt, curr_key, key);
         if (equal < 0) {
             return NULL;
         }
@@ -150,6 +150,9 @@ static PyObject* BinarySearchTree__append_node(BinarySearchTree* self, TreeNode*
 // Inserts the key and returns the index of its node.
 static PyObject* BinarySearchTree__insert(BinarySearchTree* self, PyObject* key, PyObject* data) {
     BinaryTree* bt = self->binary_tree;
+    if (BinaryTree__raise_if_comparing(bt)) {
+        return NULL;
+    }
     PyObject* res = BinarySearchTree_search(self, Py_BuildValue("(O)",key), PyDict_New()); // keywords should be a dictionary, so empty dictionary here as no keywords
     if (!res) {
         return NULL;
@@ -360,6 +363,9 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O", keywords, &key, &balancing_info)) {
         return NULL;
     }
+    if (BinaryTree__raise_if_comparing(self->binary_tree)) {
+        return NULL;
+    }
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
     PyObject* tup = BinarySearchTree_search(self, Py_BuildValue("(O)",key), kwd_parent);
@@ -396,7 +402,7 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key == Py_None) {
         Py_RETURN_NONE;
     }
-    int equal = BinaryTree__equal_keys(BinaryTree__node(bt, node_idx)->key, bound_key);
+    int equal = BinaryTree__equal_keys(bt, BinaryTree__node(bt, node_idx)->key, bound_key);
     if (equal < 0) {
         return NULL;
     }
@@ -458,7 +464,7 @@ static PyObject* BinarySearchTree__simple_path(BinarySearchTree* self, PyObject
     while (!stack.empty()) {
         long node = stack.top();
         stack.pop();
-        int equal = BinaryTree__equal_keys(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node])->key, key);
+        int equal = BinaryTree__equal_keys(bt, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node])->key, key);
         if (equal < 0) {
             return NULL;
         }
diff --git a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
index 3cc2d6b..9aa1c60 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTree.hpp
@@ -17,6 +17,7 @@ typedef struct {
     PyObject* comparator;
     long size;
     long is_order_statistic;
+    long comparisons; // which are in progress
 } BinaryTree;
 
 static void BinaryTree_dealloc(BinaryTree *self) {
@@ -91,8 +92,27 @@ static bool BinaryTree__same_index(PyObject* j, PyObject* k) {
     return j == k || (j != Py_None && k != Py_None && PyLong_AsLong(j) == PyLong_AsLong(k));
 }
 
+// The tree can't be changed as long as there is one of these.
+class BinaryTreeComparison {
+    BinaryTree* _tree;
+public:
+    explicit BinaryTreeComparison(BinaryTree* tree) : _tree(tree) { _tree->comparisons += 1; }
+    BinaryTreeComparison(const BinaryTreeComparison&) = delete;
+    BinaryTreeComparison& operator=(const BinaryTreeComparison&) = delete;
+    ~BinaryTreeComparison() { _tree->comparisons -= 1; }
+};
+
+static bool BinaryTree__raise_if_comparing(BinaryTree* self) {
+    if (self->comparisons == 0) {
+        return false;
+    }
+    PyErr_SetString(PyExc_RuntimeError, "The tree can't be changed while its keys are compared.");
+    return true;
+}
+
 // 1 if the keys are equal, 0 if they aren't and -1 if an exception was raised.
-static int BinaryTree__equal_keys(PyObject* key1, PyObject* key2) {
+static int BinaryTree__equal_keys(BinaryTree* self, PyObject* key1, PyObject* key2) {
+    BinaryTreeComparison comparison(self);
     return PyObject_RichCompareBool(key1, key2, Py_EQ);
 }
 
@@ -106,6 +126,7 @@ static int BinaryTree__compare(BinaryTree* self, PyObject* key1, PyObject* key2)
     if (!arguments) {
         return -1;
     }
+    BinaryTreeComparison comparison(self);
     PyObject* res = PyObject_CallObject(self->comparator, arguments);
     Py_DECREF(arguments);
     if (!res) {
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index 292cbe9..f6bdf89 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -148,6 +148,9 @@ static PyObject* CartesianTree_delete(CartesianTree* self, PyObject *args, PyObj
     if (!PyArg_ParseTupleAndKeywords(args, kwds, "O|O", keywords, &key, &balancing_info)) {
         return NULL;
     }
+    if (BinaryTree__raise_if_comparing(self->sbbt->bst->binary_tree)) {
+        return NULL;
+    }
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
     if (!node_idx) {
         return NULL;
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 3127d19..4374299 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -565,6 +565,9 @@ static PyObject* RedBlackTree_delete(RedBlackTree* self, PyObject *args, PyObjec
         return NULL;
     }
 
+    if (BinaryTree__raise_if_comparing(self->sbbt->bst->binary_tree)) {
+        return NULL;
+    }
     PyObject* walk = BinarySearchTree_search(self->sbbt->bst, Py_BuildValue("(O)", key), PyDict_New());
     if (!walk) {
         return NULL;
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 88e1e03..6b2fd85 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -149,6 +149,9 @@ static PyObject* SplayTree_delete(SplayTree *self, PyObject* args) {
     if (!x) {
         return NULL;
     }
+    if (BinaryTree__raise_if_comparing(self->sbbt->bst->binary_tree)) {
+        return NULL;
+    }
 
     PyObject* kwd_parent = PyDict_New();
     PyDict_SetItemString(kwd_parent, "parent", PyLong_FromLong(1));
@@ -179,6 +182,9 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
     SplayTree* other = reinterpret_cast<SplayTree*>(arg);
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     BinaryTree* obt = other->sbbt->bst->binary_tree;
+    if (BinaryTree__raise_if_comparing(bt) || BinaryTree__raise_if_comparing(obt)) {
+        return NULL;
+    }
 
     PyObject* maxm = bt->root_idx;
     while (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->right != Py_None) {
@@ -189,7 +195,11 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
         minm = reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(minm)])->left;
     }
 
-    int comp = BinaryTree__compare(bt, BinaryTree__node(bt, maxm)->key, BinaryTree__node(obt, minm)->key);
+    int comp;
+    {
+        BinaryTreeComparison comparison(obt);
+        comp = BinaryTree__compare(bt, BinaryTree__node(bt, maxm)->key, BinaryTree__node(obt, minm)->key);
+    }
     if (comp < 0) {
         return NULL;
     }
@@ -274,6 +284,9 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
     if (!x) {
         return NULL;
     }
+    if (BinaryTree__raise_if_comparing(self->sbbt->bst->binary_tree)) {
+        return NULL;
+    }
     BinaryTree* bt = self->sbbt->bst->binary_tree;
 
     PyObject* kwd_parent = PyDict_New();
@@ -306,6 +319,7 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right != Py_None) {
         PyObject* elements = SplayTree__pre_order(self, Py_BuildValue("(O)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right));
         for (int i=0; i<PyList_Size(elements); i++) {
+            BinaryTreeComparison comparison(bt);
             PyObject* res = SelfBalancingBinaryTree_insert(other->sbbt, Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->key, reinterpret_cast<TreeNode*>( PyList_GetItem(elements, i))->data));
             if (!res) {
                 return NULL;
-- 
2.43.0


From 2e693bab9dd99583df335199a1a3871af95f0e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 67/78] fix: C++ arrays, stacks, sorts and searches leaked
 elements, str() of an array crashed on errors

---
 .../cpp/algorithms/misc_algorithms.hpp        | 171 +++++++------
 .../cpp/algorithms/quadratic_time_sort.hpp    | 163 +++++++-----
 .../_backend/cpp/algorithms/quick_sort.hpp    |  84 +++----
 .../_backend/cpp/arrays/ArrayForTrees.hpp     |  27 +-
 .../cpp/arrays/DynamicOneDimensionalArray.hpp | 107 ++++----
 .../cpp/arrays/OneDimensionalArray.hpp        | 235 ++++++++----------
 .../_backend/cpp/stack/ArrayStack.hpp         |  78 +++---
 .../trees/_backend/cpp/BinaryIndexedTree.hpp  | 117 ++++++---
 pydatastructs/utils/_backend/cpp/utils.hpp    | 103 ++++++--
 9 files changed, 614 insertions(+), 471 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
index 0d3b391..d4718ef 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
@@ -10,18 +10,18 @@
 // is_ordered
 static int is_ordered_impl(PyObject* array, size_t lower, size_t upper,
     PyObject* comp) {
-    PyObject* previous = NULL;
+    PyRef previous;
     for (size_t i = lower; i < upper + 1; i++) {
-        PyObject* item = PyObject_GetItem(array, PyLong_FromSize_t(i));
+        PyRef item(get_item_at(array, i));
         if ( !item ) {
             return -1;
         }
-        if ( item == Py_None ) continue;
-        if ( previous ) {
+        if ( item.get() == Py_None ) continue;
+        if ( previous.get() ) {
             // Elements which are equal as per comp are in order.
-            int comp_result = _comp(item, previous, comp);
+            int comp_result = _comp(item.get(), previous.get(), comp);
             if ( comp_result == 1 ) {
-                comp_result = _comp(previous, item, comp);
+                comp_result = _comp(previous.get(), item.get(), comp);
                 if ( comp_result == 0 ) {
                     return 0;
                 }
@@ -30,7 +30,7 @@ static int is_ordered_impl(PyObject* array, size_t lower, size_t upper,
                 return -1;
             }
         }
-        previous = item;
+        previous.reset(item.release());
     }
     return 1;
 }
@@ -39,30 +39,38 @@ static PyObject* is_ordered(PyObject* self, PyObject* args, PyObject* kwds) {
     PyObject *args0 = NULL, *start = NULL, *end = NULL;
     PyObject *comp = NULL, *res = NULL;
     size_t lower, upper;
-    args0 = PyObject_GetItem(args, PyZero);
+    PyRef array_ref(PyObject_GetItem(args, PyZero));
+    if ( !array_ref ) {
+        return NULL;
+    }
+    args0 = array_ref.get();
     int is_DynamicOneDimensionalArray = _check_type(args0, &DynamicOneDimensionalArrayType);
     int is_OneDimensionalArray = _check_type(args0, &OneDimensionalArrayType);
     if ( !is_DynamicOneDimensionalArray && !is_OneDimensionalArray ) {
         raise_exception_if_not_array(args0);
         return NULL;
     }
-    comp = PyObject_GetItem(kwds, PyUnicode_FromString("comp"));
-    if ( comp == NULL ) {
-        PyErr_Clear();
-    }
-    start = PyObject_GetItem(kwds, PyUnicode_FromString("start"));
+    PyRef comp_ref(get_keyword_argument(kwds, "comp"));
+    comp = comp_ref.get();
+    PyRef start_ref(get_keyword_argument(kwds, "start"));
+    start = start_ref.get();
     if ( start == NULL ) {
-        PyErr_Clear();
         lower = 0;
     } else {
         lower = PyLong_AsSize_t(start);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
     }
-    end = PyObject_GetItem(kwds, PyUnicode_FromString("end"));
+    PyRef end_ref(get_keyword_argument(kwds, "end"));
+    end = end_ref.get();
     if ( end == NULL ) {
-        PyErr_Clear();
         upper = PyObject_Length(args0) - 1;
     } else {
         upper = PyLong_AsSize_t(end);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
     }
 
     int _res = is_ordered_impl(args0, lower, upper, comp);
@@ -70,7 +78,6 @@ static PyObject* is_ordered(PyObject* self, PyObject* args, PyObject* kwds) {
         return NULL;
     }
     res = PyBool_FromLong(_res);
-    Py_INCREF(res);
     return res;
 }
 
@@ -78,53 +85,59 @@ static PyObject* linear_search(PyObject* self, PyObject* args, PyObject* kwds) {
     PyObject *args0 = NULL, *start = NULL, *end = NULL;
     PyObject *value = NULL, *res = NULL, *u = NULL;
     size_t lower, upper;
-    args0 = PyObject_GetItem(args, PyZero);
+    PyRef array_ref(PyObject_GetItem(args, PyZero));
+    if ( !array_ref ) {
+        return NULL;
+    }
+    args0 = array_ref.get();
     int is_DynamicOneDimensionalArray = _check_type(args0, &DynamicOneDimensionalArrayType);
     int is_OneDimensionalArray = _check_type(args0, &OneDimensionalArrayType);
     if ( !is_DynamicOneDimensionalArray && !is_OneDimensionalArray ) {
         raise_exception_if_not_array(args0);
         return NULL;
     }
-    start = PyObject_GetItem(kwds, PyUnicode_FromString("start"));
+    PyRef start_ref(get_keyword_argument(kwds, "start"));
+    start = start_ref.get();
     if ( start == NULL ) {
-        PyErr_Clear();
         lower = 0;
     } else {
         lower = PyLong_AsSize_t(start);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
     }
-    end = PyObject_GetItem(kwds, PyUnicode_FromString("end"));
+    PyRef end_ref(get_keyword_argument(kwds, "end"));
+    end = end_ref.get();
     if ( end == NULL ) {
-        PyErr_Clear();
         upper = PyObject_Length(args0) - 1;
     } else {
         upper = PyLong_AsSize_t(end);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
     }
-    value = PyObject_GetItem(args, PyLong_FromSize_t(1));
+    PyRef value_ref(PyObject_GetItem(args, PyOne));
+    value = value_ref.get();
     if ( value == NULL ) {
         PyErr_Format(PyExc_ValueError,
                 "Expected Value to be not NULL");
         return NULL;
     }
     for (size_t i = lower;  i < upper + 1; i++) {
-        u = PyObject_GetItem(args0, PyLong_FromSize_t(i));
+        PyRef u_ref(get_item_at(args0, i));
+        u = u_ref.get();
         if ( !u ) {
             return NULL;
         }
         int result = PyObject_RichCompareBool(u, value, Py_EQ);
         if ( result == -1 ) {
             PyErr_Format(PyExc_ValueError,
-                "Unable to compare %s object with %s object.",
-                PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
-                PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
+                "Unable to compare %R object with %R object.",
+                (PyObject*) Py_TYPE(u), (PyObject*) Py_TYPE(value)
             );
             return NULL;
         } else if (result == 1) {
-            if (i == 0) {
-                res = PyZero;
-            } else {
-                res = PyLong_FromSize_t(i);
-            }
-            Py_INCREF(res);
+            res = PyLong_FromSize_t(i);
             return res;
         }
     }
@@ -137,32 +150,41 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
     PyObject *args0 = NULL, *start = NULL, *end = NULL;
     PyObject *value = NULL, *res = NULL, *u = NULL, *comp = NULL;
     size_t lower, upper;
-    args0 = PyObject_GetItem(args, PyZero);
+    PyRef array_ref(PyObject_GetItem(args, PyZero));
+    if ( !array_ref ) {
+        return NULL;
+    }
+    args0 = array_ref.get();
     int is_DynamicOneDimensionalArray = _check_type(args0, &DynamicOneDimensionalArrayType);
     int is_OneDimensionalArray = _check_type(args0, &OneDimensionalArrayType);
     if ( !is_DynamicOneDimensionalArray && !is_OneDimensionalArray ) {
         raise_exception_if_not_array(args0);
         return NULL;
     }
-    comp = PyObject_GetItem(kwds, PyUnicode_FromString("comp"));
-    if ( comp == NULL ) {
-        PyErr_Clear();
-    }
-    start = PyObject_GetItem(kwds, PyUnicode_FromString("start"));
+    PyRef comp_ref(get_keyword_argument(kwds, "comp"));
+    comp = comp_ref.get();
+    PyRef start_ref(get_keyword_argument(kwds, "start"));
+    start = start_ref.get();
     if ( start == NULL ) {
-        PyErr_Clear();
         lower = 0;
     } else {
         lower = PyLong_AsSize_t(start);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
     }
-    end = PyObject_GetItem(kwds, PyUnicode_FromString("end"));
+    PyRef end_ref(get_keyword_argument(kwds, "end"));
+    end = end_ref.get();
     if ( end == NULL ) {
-        PyErr_Clear();
         upper = PyObject_Length(args0) - 1;
     } else {
         upper = PyLong_AsSize_t(end);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
     }
-    value = PyObject_GetItem(args, PyLong_FromSize_t(1));
+    PyRef value_ref(PyObject_GetItem(args, PyOne));
+    value = value_ref.get();
     if ( value == NULL ) {
         PyErr_Format(PyExc_ValueError,
                 "Expected Value to be not NULL");
@@ -173,25 +195,20 @@ static PyObject* binary_search(PyObject* self, PyObject* args, PyObject* kwds) {
     while (left <= right)
     {
         int middle = left/2 + right/2 + left % 2 * right % 2;
-        u = PyObject_GetItem(args0, PyLong_FromSize_t(middle));
+        PyRef u_ref(get_item_at(args0, (size_t) middle));
+        u = u_ref.get();
         if ( !u ) {
             return NULL;
         }
         int result = PyObject_RichCompareBool(u, value, Py_EQ);
         if ( result == -1 ) {
             PyErr_Format(PyExc_ValueError,
-                "Unable to compare %s object with %s object.",
-                PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
-                PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
+                "Unable to compare %R object with %R object.",
+                (PyObject*) Py_TYPE(u), (PyObject*) Py_TYPE(value)
             );
             return NULL;
         } else if (result == 1) {
-            if (middle == 0) {
-                res = PyZero;
-            } else {
-                res = PyLong_FromSize_t(middle);
-            }
-            Py_INCREF(res);
+            res = PyLong_FromSize_t(middle);
             return res;
         }
         int comp_result = _comp(u, value, comp);
@@ -213,32 +230,41 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
     PyObject *args0 = NULL, *start = NULL, *end = NULL;
     PyObject *value = NULL, *res = NULL, *u = NULL, *comp = NULL;
     size_t lower, upper;
-    args0 = PyObject_GetItem(args, PyZero);
+    PyRef array_ref(PyObject_GetItem(args, PyZero));
+    if ( !array_ref ) {
+        return NULL;
+    }
+    args0 = array_ref.get();
     int is_DynamicOneDimensionalArray = _check_type(args0, &DynamicOneDimensionalArrayType);
     int is_OneDimensionalArray = _check_type(args0, &OneDimensionalArrayType);
     if ( !is_DynamicOneDimensionalArray && !is_OneDimensionalArray ) {
         raise_exception_if_not_array(args0);
         return NULL;
     }
-    comp = PyObject_GetItem(kwds, PyUnicode_FromString("comp"));
-    if ( comp == NULL ) {
-        PyErr_Clear();
-    }
-    start = PyObject_GetItem(kwds, PyUnicode_FromString("start"));
+    PyRef comp_ref(get_keyword_argument(kwds, "comp"));
+    comp = comp_ref.get();
+    PyRef start_ref(get_keyword_argument(kwds, "start"));
+    start = start_ref.get();
     if ( start == NULL ) {
-        PyErr_Clear();
         lower = 0;
     } else {
         lower = PyLong_AsSize_t(start);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
     }
-    end = PyObject_GetItem(kwds, PyUnicode_FromString("end"));
+    PyRef end_ref(get_keyword_argument(kwds, "end"));
+    end = end_ref.get();
     if ( end == NULL ) {
-        PyErr_Clear();
         upper = PyObject_Length(args0) - 1;
     } else {
         upper = PyLong_AsSize_t(end);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
     }
-    value = PyObject_GetItem(args, PyLong_FromSize_t(1));
+    PyRef value_ref(PyObject_GetItem(args, PyOne));
+    value = value_ref.get();
     if ( value == NULL ) {
         PyErr_Format(PyExc_ValueError,
                 "Expected Value to be not NULL");
@@ -247,8 +273,8 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
     size_t step = size_t(sqrt(double(upper + 1 - lower)));
     size_t prev = lower;
     for (size_t element_pos = lower + step; element_pos < upper + 1; element_pos += step) {
-        int comp_result = _comp(PyObject_GetItem(args0, PyLong_FromSize_t(element_pos)),
-                                value, comp);
+        PyRef element(get_item_at(args0, element_pos));
+        int comp_result = _comp(element.get(), value, comp);
         if ( comp_result == -1 ) {
             return NULL;
         }
@@ -259,25 +285,20 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
     }
 
     while (prev < upper + 1) {
-        u = PyObject_GetItem(args0, PyLong_FromSize_t(prev));
+        PyRef u_ref(get_item_at(args0, prev));
+        u = u_ref.get();
         if ( !u ) {
             return NULL;
         }
         int result = PyObject_RichCompareBool(u, value, Py_EQ);
         if ( result == -1 ) {
             PyErr_Format(PyExc_ValueError,
-                "Unable to compare %s object with %s object.",
-                PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
-                PyObject_AsString(PyObject_Repr(PyObject_Type(value)))
+                "Unable to compare %R object with %R object.",
+                (PyObject*) Py_TYPE(u), (PyObject*) Py_TYPE(value)
             );
             return NULL;
         } else if (result == 1) {
-            if (prev == 0) {
-                res = PyZero;
-            } else {
-                res = PyLong_FromSize_t(prev);
-            }
-            Py_INCREF(res);
+            res = PyLong_FromSize_t(prev);
             return res;
         }
         prev += 1;
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
index c1004dd..79aee56 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quadratic_time_sort.hpp
@@ -13,18 +13,14 @@ static PyObject* bubble_sort_impl(PyObject* array, size_t lower, size_t upper,
     PyObject* comp, size_t arr_length) {
     for (size_t i = 0; i + 1 < arr_length; i++) {
         for (size_t j = lower; j < upper; j++) {
-            PyObject* j_PyObject = PyLong_FromSize_t(j);
-            PyObject* j1_PyObject = PyLong_FromSize_t(j+1);
-            int comp_result = _comp(PyObject_GetItem(array, j_PyObject),
-                        PyObject_GetItem(array, j1_PyObject), comp);
+            PyRef u(get_item_at(array, j));
+            PyRef v(u.get() ? get_item_at(array, j + 1) : NULL);
+            int comp_result = _comp(u.get(), v.get(), comp);
             if ( comp_result == -1 ) {
                 return NULL;
             }
-            if ( comp_result != 1 ) {
-                PyObject* tmp = PyObject_GetItem(array, j1_PyObject);
-                PyObject_SetItem(array, j1_PyObject,
-                                PyObject_GetItem(array, j_PyObject));
-                PyObject_SetItem(array, j_PyObject, tmp);
+            if ( comp_result != 1 && swap_items_at(array, j, j + 1) == -1 ) {
+                return NULL;
             }
         }
     }
@@ -36,40 +32,49 @@ static PyObject* bubble_sort(PyObject* self, PyObject* args, PyObject* kwds) {
     PyObject *args0 = NULL, *start = NULL, *end = NULL;
     PyObject *comp = NULL, *pick_pivot_element = NULL;
     size_t lower, upper, arr_length;
-    args0 = PyObject_GetItem(args, PyZero);
+    PyRef array_ref(PyObject_GetItem(args, PyZero));
+    if ( !array_ref ) {
+        return NULL;
+    }
+    args0 = array_ref.get();
     int is_DynamicOneDimensionalArray = _check_type(args0, &DynamicOneDimensionalArrayType);
     int is_OneDimensionalArray = _check_type(args0, &OneDimensionalArrayType);
     if ( !is_DynamicOneDimensionalArray && !is_OneDimensionalArray ) {
         raise_exception_if_not_array(args0);
         return NULL;
     }
-    comp = PyObject_GetItem(kwds, PyUnicode_FromString("comp"));
-    if ( comp == NULL ) {
-        PyErr_Clear();
-    }
-    start = PyObject_GetItem(kwds, PyUnicode_FromString("start"));
+    PyRef comp_ref(get_keyword_argument(kwds, "comp"));
+    comp = comp_ref.get();
+    PyRef start_ref(get_keyword_argument(kwds, "start"));
+    start = start_ref.get();
     if ( start == NULL ) {
-        PyErr_Clear();
         lower = 0;
     } else {
         lower = PyLong_AsSize_t(start);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
     }
-    end = PyObject_GetItem(kwds, PyUnicode_FromString("end"));
+    PyRef end_ref(get_keyword_argument(kwds, "end"));
+    end = end_ref.get();
     if ( end == NULL ) {
-        PyErr_Clear();
         upper = PyObject_Length(args0) - 1;
     } else {
         upper = PyLong_AsSize_t(end);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
     }
     arr_length = PyObject_Length(args0);
 
-    args0 = bubble_sort_impl(args0, lower, upper, comp, arr_length);
-    if ( !args0 ) {
+    if ( !bubble_sort_impl(args0, lower, upper, comp, arr_length) ) {
         return NULL;
     }
-    if ( is_DynamicOneDimensionalArray &&
-         !PyObject_CallMethod(args0, "_modify", "O", Py_True) ) {
-        return NULL;
+    if ( is_DynamicOneDimensionalArray ) {
+        PyRef modified(PyObject_CallMethod(args0, "_modify", "O", Py_True));
+        if ( !modified ) {
+            return NULL;
+        }
     }
     Py_INCREF(args0);
     return args0;
@@ -596,23 +601,21 @@ static PyObject* bubble_sort_llvm(PyObject* self, PyObject* args, PyObject* kwds
 static PyObject* selection_sort_impl(PyObject* array, size_t lower, size_t upper,
     PyObject* comp) {
     for (size_t i = lower; i < upper + 1; i++) {
-        PyObject* j_min_PyObject = PyLong_FromSize_t(i);
-        PyObject* i_PyObject = PyLong_FromSize_t(i);
+        size_t j_min = i;
         for (size_t j = i + 1; j < upper + 1; j++) {
-            PyObject* j_PyObject = PyLong_FromSize_t(j);
-            int comp_result = _comp(PyObject_GetItem(array, j_min_PyObject),
-                        PyObject_GetItem(array, j_PyObject), comp);
+            PyRef u(get_item_at(array, j_min));
+            PyRef v(u.get() ? get_item_at(array, j) : NULL);
+            int comp_result = _comp(u.get(), v.get(), comp);
             if ( comp_result == -1 ) {
                 return NULL;
             }
             if ( comp_result != 1 ) {
-                j_min_PyObject = j_PyObject;
+                j_min = j;
             }
         }
-        PyObject* tmp = PyObject_GetItem(array, j_min_PyObject);
-        PyObject_SetItem(array, j_min_PyObject,
-                        PyObject_GetItem(array, i_PyObject));
-        PyObject_SetItem(array, i_PyObject, tmp);
+        if ( swap_items_at(array, j_min, i) == -1 ) {
+            return NULL;
+        }
     }
     return array;
 }
@@ -622,39 +625,48 @@ static PyObject* selection_sort(PyObject* self, PyObject* args, PyObject* kwds)
     PyObject *args0 = NULL, *start = NULL, *end = NULL;
     PyObject *comp = NULL, *pick_pivot_element = NULL;
     size_t lower, upper;
-    args0 = PyObject_GetItem(args, PyZero);
+    PyRef array_ref(PyObject_GetItem(args, PyZero));
+    if ( !array_ref ) {
+        return NULL;
+    }
+    args0 = array_ref.get();
     int is_DynamicOneDimensionalArray = _check_type(args0, &DynamicOneDimensionalArrayType);
     int is_OneDimensionalArray = _check_type(args0, &OneDimensionalArrayType);
     if ( !is_DynamicOneDimensionalArray && !is_OneDimensionalArray ) {
         raise_exception_if_not_array(args0);
         return NULL;
     }
-    comp = PyObject_GetItem(kwds, PyUnicode_FromString("comp"));
-    if ( comp == NULL ) {
-        PyErr_Clear();
-    }
-    start = PyObject_GetItem(kwds, PyUnicode_FromString("start"));
+    PyRef comp_ref(get_keyword_argument(kwds, "comp"));
+    comp = comp_ref.get();
+    PyRef start_ref(get_keyword_argument(kwds, "start"));
+    start = start_ref.get();
     if ( start == NULL ) {
-        PyErr_Clear();
         lower = 0;
     } else {
         lower = PyLong_AsSize_t(start);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
     }
-    end = PyObject_GetItem(kwds, PyUnicode_FromString("end"));
+    PyRef end_ref(get_keyword_argument(kwds, "end"));
+    end = end_ref.get();
     if ( end == NULL ) {
-        PyErr_Clear();
         upper = PyObject_Length(args0) - 1;
     } else {
         upper = PyLong_AsSize_t(end);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
     }
 
-    args0 = selection_sort_impl(args0, lower, upper, comp);
-    if ( !args0 ) {
+    if ( !selection_sort_impl(args0, lower, upper, comp) ) {
         return NULL;
     }
-    if ( is_DynamicOneDimensionalArray &&
-         !PyObject_CallMethod(args0, "_modify", "O", Py_True) ) {
-        return NULL;
+    if ( is_DynamicOneDimensionalArray ) {
+        PyRef modified(PyObject_CallMethod(args0, "_modify", "O", Py_True));
+        if ( !modified ) {
+            return NULL;
+        }
     }
     Py_INCREF(args0);
     return args0;
@@ -1182,12 +1194,14 @@ static PyObject* selection_sort_llvm(PyObject* self, PyObject* args, PyObject* k
 static PyObject* insertion_sort_impl(PyObject* array, size_t lower, size_t upper,
     PyObject* comp) {
     for (size_t i = lower + 1; i < upper + 1; i++) {
-        PyObject* i_PyObject = PyLong_FromSize_t(i);
-        PyObject* temp = PyObject_GetItem(array, i_PyObject);
+        PyRef temp(get_item_at(array, i));
+        if ( !temp ) {
+            return NULL;
+        }
         size_t j = i;
         while (j > lower) {
-            int comp_result = _comp(PyObject_GetItem(array, PyLong_FromSize_t(j-1)),
-                        temp, comp);
+            PyRef u(get_item_at(array, j - 1));
+            int comp_result = _comp(u.get(), temp.get(), comp);
             if ( comp_result == -1 ) {
                 return NULL;
             }
@@ -1199,10 +1213,14 @@ static PyObject* insertion_sort_impl(PyObject* array, size_t lower, size_t upper
         // Elements are moved only after all the comparisons are made
         // so that none of them is lost if the comparator fails.
         for (size_t k = i; k > j; k--) {
-            PyObject_SetItem(array, PyLong_FromSize_t(k),
-                        PyObject_GetItem(array, PyLong_FromSize_t(k-1)));
+            PyRef u(get_item_at(array, k - 1));
+            if ( !u || set_item_at(array, k, u.get()) == -1 ) {
+                return NULL;
+            }
+        }
+        if ( set_item_at(array, j, temp.get()) == -1 ) {
+            return NULL;
         }
-        PyObject_SetItem(array, PyLong_FromSize_t(j), temp);
     }
     return array;
 }
@@ -1211,39 +1229,48 @@ static PyObject* insertion_sort(PyObject* self, PyObject* args, PyObject* kwds)
     PyObject *args0 = NULL, *start = NULL, *end = NULL;
     PyObject *comp = NULL, *pick_pivot_element = NULL;
     size_t lower, upper;
-    args0 = PyObject_GetItem(args, PyZero);
+    PyRef array_ref(PyObject_GetItem(args, PyZero));
+    if ( !array_ref ) {
+        return NULL;
+    }
+    args0 = array_ref.get();
     int is_DynamicOneDimensionalArray = _check_type(args0, &DynamicOneDimensionalArrayType);
     int is_OneDimensionalArray = _check_type(args0, &OneDimensionalArrayType);
     if ( !is_DynamicOneDimensionalArray && !is_OneDimensionalArray ) {
         raise_exception_if_not_array(args0);
         return NULL;
     }
-    comp = PyObject_GetItem(kwds, PyUnicode_FromString("comp"));
-    if ( comp == NULL ) {
-        PyErr_Clear();
-    }
-    start = PyObject_GetItem(kwds, PyUnicode_FromString("start"));
+    PyRef comp_ref(get_keyword_argument(kwds, "comp"));
+    comp = comp_ref.get();
+    PyRef start_ref(get_keyword_argument(kwds, "start"));
+    start = start_ref.get();
     if ( start == NULL ) {
-        PyErr_Clear();
         lower = 0;
     } else {
         lower = PyLong_AsSize_t(start);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
     }
-    end = PyObject_GetItem(kwds, PyUnicode_FromString("end"));
+    PyRef end_ref(get_keyword_argument(kwds, "end"));
+    end = end_ref.get();
     if ( end == NULL ) {
-        PyErr_Clear();
         upper = PyObject_Length(args0) - 1;
     } else {
         upper = PyLong_AsSize_t(end);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
     }
 
-    args0 = insertion_sort_impl(args0, lower, upper, comp);
-    if ( !args0 ) {
+    if ( !insertion_sort_impl(args0, lower, upper, comp) ) {
         return NULL;
     }
-    if ( is_DynamicOneDimensionalArray &&
-         !PyObject_CallMethod(args0, "_modify", "O", Py_True) ) {
-        return NULL;
+    if ( is_DynamicOneDimensionalArray ) {
+        PyRef modified(PyObject_CallMethod(args0, "_modify", "O", Py_True));
+        if ( !modified ) {
+            return NULL;
+        }
     }
     Py_INCREF(args0);
     return args0;
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index 6dabad5..83abb18 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -10,60 +10,50 @@
 
 static PyObject* call_pick_pivot_element(PyObject* pick_pivot_element,
     size_t low, size_t high, PyObject* array) {
-    PyObject* high_PyObject = PyLong_FromSize_t(high);
     if ( pick_pivot_element ) {
-        return PyObject_CallFunctionObjArgs(pick_pivot_element,
-                                            PyLong_FromSize_t(low),
-                                            high_PyObject,
-                                            array, NULL);
+        return PyObject_CallFunction(pick_pivot_element, "nnO",
+                                     (Py_ssize_t) low, (Py_ssize_t) high, array);
     }
 
-    return PyObject_GetItem(array, high_PyObject);
+    return get_item_at(array, high);
 }
 
 // Returns with an exception set if the elements can't be compared.
 static size_t quick_sort_partition(size_t low, size_t high,
     PyObject* pick_pivot_element, PyObject* comp, PyObject* array) {
     int64_t i = low - 1;
-    PyObject* x = call_pick_pivot_element(pick_pivot_element, low, high, array);
+    PyRef pivot(call_pick_pivot_element(pick_pivot_element, low, high, array));
+    PyObject* x = pivot.get();
     if ( !x ) {
         return low;
     }
     // The pivot has to be at the end of the partition.
     for( size_t j = high + 1; j > low; j-- ) {
-        PyObject* j_PyObject = PyLong_FromSize_t(j - 1);
-        PyObject* item = PyObject_GetItem(array, j_PyObject);
+        PyRef item(get_item_at(array, j - 1));
         if ( !item ) {
             return low;
         }
-        if ( item == x ) {
-            PyObject* last = PyLong_FromSize_t(high);
-            PyObject_SetItem(array, j_PyObject, PyObject_GetItem(array, last));
-            PyObject_SetItem(array, last, x);
+        if ( item.get() == x ) {
+            if ( swap_items_at(array, j - 1, high) == -1 ) {
+                return low;
+            }
             break;
         }
     }
     for( size_t j = low; j < high; j++ ) {
-        PyObject* j_PyObject = PyLong_FromSize_t(j);
-        int comp_result = _comp(PyObject_GetItem(array, j_PyObject), x, comp);
+        PyRef item(get_item_at(array, j));
+        int comp_result = _comp(item.get(), x, comp);
         if ( comp_result == -1 ) {
             return low;
         }
         if ( comp_result == 1 ) {
             i = i + 1;
-            PyObject* i_PyObject = PyLong_FromLongLong(i);
-            PyObject* tmp = PyObject_GetItem(array, i_PyObject);
-            PyObject_SetItem(array, i_PyObject,
-                             PyObject_GetItem(array, j_PyObject));
-            PyObject_SetItem(array, j_PyObject, tmp);
+            if ( swap_items_at(array, (size_t) i, j) == -1 ) {
+                return low;
+            }
         }
     }
-    PyObject* i_PyObject = PyLong_FromLongLong(i + 1);
-    PyObject* high_PyObject = PyLong_FromSize_t(high);
-    PyObject* tmp = PyObject_GetItem(array, i_PyObject);
-    PyObject_SetItem(array, i_PyObject,
-                        PyObject_GetItem(array, high_PyObject));
-    PyObject_SetItem(array, high_PyObject, tmp);
+    swap_items_at(array, (size_t) (i + 1), high);
     return i + 1;
 }
 
@@ -105,34 +95,40 @@ static PyObject* quick_sort(PyObject* self, PyObject* args, PyObject* kwds) {
     PyObject *args0 = NULL, *start = NULL, *end = NULL;
     PyObject *comp = NULL, *pick_pivot_element = NULL;
     size_t lower, upper;
-    args0 = PyObject_GetItem(args, PyZero);
+    PyRef array_ref(PyObject_GetItem(args, PyZero));
+    if ( !array_ref ) {
+        return NULL;
+    }
+    args0 = array_ref.get();
     int is_DynamicOneDimensionalArray = _check_type(args0, &DynamicOneDimensionalArrayType);
     int is_OneDimensionalArray = _check_type(args0, &OneDimensionalArrayType);
     if ( !is_DynamicOneDimensionalArray && !is_OneDimensionalArray ) {
         raise_exception_if_not_array(args0);
         return NULL;
     }
-    comp = PyObject_GetItem(kwds, PyUnicode_FromString("comp"));
-    if ( comp == NULL ) {
-        PyErr_Clear();
-    }
-    pick_pivot_element = PyObject_GetItem(kwds, PyUnicode_FromString("pick_pivot_element"));
-    if ( pick_pivot_element == NULL ) {
-        PyErr_Clear();
-    }
-    start = PyObject_GetItem(kwds, PyUnicode_FromString("start"));
+    PyRef comp_ref(get_keyword_argument(kwds, "comp"));
+    comp = comp_ref.get();
+    PyRef pick_pivot_element_ref(get_keyword_argument(kwds, "pick_pivot_element"));
+    pick_pivot_element = pick_pivot_element_ref.get();
+    PyRef start_ref(get_keyword_argument(kwds, "start"));
+    start = start_ref.get();
     if ( start == NULL ) {
-        PyErr_Clear();
         lower = 0;
     } else {
         lower = PyLong_AsSize_t(start);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
     }
-    end = PyObject_GetItem(kwds, PyUnicode_FromString("end"));
+    PyRef end_ref(get_keyword_argument(kwds, "end"));
+    end = end_ref.get();
     if ( end == NULL ) {
-        PyErr_Clear();
         upper = PyObject_Length(args0) - 1;
     } else {
         upper = PyLong_AsSize_t(end);
+        if ( PyErr_Occurred() ) {
+            return NULL;
+        }
     }
 
     if ( !quick_sort_impl(args0, lower, upper, comp, pick_pivot_element) ) {
@@ -140,14 +136,16 @@ static PyObject* quick_sort(PyObject* self, PyObject* args, PyObject* kwds) {
             // The pivot may be at the end of the array.
             PyObject *type, *value, *traceback;
             PyErr_Fetch(&type, &value, &traceback);
-            PyObject_CallMethod(args0, "_modify", "O", Py_True);
+            PyRef modified(PyObject_CallMethod(args0, "_modify", "O", Py_True));
             PyErr_Restore(type, value, traceback);
         }
         return NULL;
     }
-    if ( is_DynamicOneDimensionalArray &&
-         !PyObject_CallMethod(args0, "_modify", "O", Py_True) ) {
-        return NULL;
+    if ( is_DynamicOneDimensionalArray ) {
+        PyRef modified(PyObject_CallMethod(args0, "_modify", "O", Py_True));
+        if ( !modified ) {
+            return NULL;
+        }
     }
     Py_INCREF(args0);
     return args0;
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
index 39f7bef..4162079 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
@@ -20,7 +20,13 @@ typedef struct {
 } ArrayForTrees;
 
 static void ArrayForTrees_dealloc(ArrayForTrees *self) {
-    OneDimensionalArray_dealloc(self->_one_dimensional_array);
+    OneDimensionalArray* array = self->_one_dimensional_array;
+    if ( array ) {
+        // The nodes are shared with the tree, which doesn't own references to them.
+        std::free(array->_data);
+        array->_data = nullptr;
+        Py_DECREF(reinterpret_cast<PyObject*>(array));
+    }
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
@@ -28,6 +34,10 @@ static PyObject* ArrayForTrees___new__(PyTypeObject* type, PyObject *args,
                                                     PyObject *kwds) {
     ArrayForTrees *self;
     self = reinterpret_cast<ArrayForTrees*>(type->tp_alloc(type, 0));
+    if ( !self ) {
+        return NULL;
+    }
+    PyRef self_ref(reinterpret_cast<PyObject*>(self));
     if (PyType_Ready(&OneDimensionalArrayType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
     }
@@ -38,16 +48,19 @@ static PyObject* ArrayForTrees___new__(PyTypeObject* type, PyObject *args,
     self->_one_dimensional_array = reinterpret_cast<OneDimensionalArray*>(_one_dimensional_array);
     self->_size = (long) self->_one_dimensional_array->_size;
 
-    PyObject* _load_factor = PyObject_GetItem(kwds, PyUnicode_FromString("load_factor"));
-    if ( _load_factor == nullptr ) {
-        PyErr_Clear();
+    PyRef _load_factor(get_keyword_argument(kwds, "load_factor"));
+    if ( !_load_factor ) {
         self->_load_factor = 0.25;
     } else {
-        _load_factor = PyFloat_FromString(PyObject_Str(_load_factor));
+        _load_factor.reset(PyObject_Str(_load_factor.get()));
+        if ( !_load_factor ) {
+            return NULL;
+        }
+        _load_factor.reset(PyFloat_FromString(_load_factor.get()));
         if ( !_load_factor ) {
             return NULL;
         }
-        self->_load_factor = PyFloat_AS_DOUBLE(_load_factor);
+        self->_load_factor = PyFloat_AS_DOUBLE(_load_factor.get());
     }
     if ( self->_one_dimensional_array->_size == 0 ||
         self->_one_dimensional_array->_data[0] == Py_None ) {
@@ -57,7 +70,7 @@ static PyObject* ArrayForTrees___new__(PyTypeObject* type, PyObject *args,
     }
     self->_last_pos_filled = (long) self->_num - 1;
 
-    return reinterpret_cast<PyObject*>(self);
+    return self_ref.release();
 }
 
 static PyObject* ArrayForTrees___getitem__(ArrayForTrees *self,
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
index 3d8f190..20c4952 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
@@ -19,7 +19,7 @@ typedef struct {
 } DynamicOneDimensionalArray;
 
 static void DynamicOneDimensionalArray_dealloc(DynamicOneDimensionalArray *self) {
-    OneDimensionalArray_dealloc(self->_one_dimensional_array);
+    Py_XDECREF(reinterpret_cast<PyObject*>(self->_one_dimensional_array));
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
@@ -27,6 +27,10 @@ static PyObject* DynamicOneDimensionalArray___new__(PyTypeObject* type, PyObject
                                                     PyObject *kwds) {
     DynamicOneDimensionalArray *self;
     self = reinterpret_cast<DynamicOneDimensionalArray*>(type->tp_alloc(type, 0));
+    if ( !self ) {
+        return NULL;
+    }
+    PyRef self_ref(reinterpret_cast<PyObject*>(self));
     if (PyType_Ready(&OneDimensionalArrayType) < 0) { // This has to be present to finalize a type object. This should be called on all type objects to finish their initialization.
         return NULL;
     }
@@ -37,16 +41,19 @@ static PyObject* DynamicOneDimensionalArray___new__(PyTypeObject* type, PyObject
     self->_one_dimensional_array = reinterpret_cast<OneDimensionalArray*>(_one_dimensional_array);
     self->_size = (long) self->_one_dimensional_array->_size;
 
-    PyObject* _load_factor = PyObject_GetItem(kwds, PyUnicode_FromString("load_factor"));
-    if ( _load_factor == nullptr ) {
-        PyErr_Clear();
+    PyRef _load_factor(get_keyword_argument(kwds, "load_factor"));
+    if ( !_load_factor ) {
         self->_load_factor = 0.25;
     } else {
-        _load_factor = PyFloat_FromString(PyObject_Str(_load_factor));
+        _load_factor.reset(PyObject_Str(_load_factor.get()));
+        if ( !_load_factor ) {
+            return NULL;
+        }
+        _load_factor.reset(PyFloat_FromString(_load_factor.get()));
         if ( !_load_factor ) {
             return NULL;
         }
-        self->_load_factor = PyFloat_AS_DOUBLE(_load_factor);
+        self->_load_factor = PyFloat_AS_DOUBLE(_load_factor.get());
     }
     if ( self->_one_dimensional_array->_size == 0 ||
         self->_one_dimensional_array->_data[0] == Py_None ) {
@@ -56,7 +63,7 @@ static PyObject* DynamicOneDimensionalArray___new__(PyTypeObject* type, PyObject
     }
     self->_last_pos_filled = (long) self->_num - 1;
 
-    return reinterpret_cast<PyObject*>(self);
+    return self_ref.release();
 }
 
 static PyObject* DynamicOneDimensionalArray___getitem__(DynamicOneDimensionalArray *self,
@@ -66,18 +73,16 @@ static PyObject* DynamicOneDimensionalArray___getitem__(DynamicOneDimensionalArr
 
 static int DynamicOneDimensionalArray___setitem__(DynamicOneDimensionalArray *self,
                                                   PyObject* arg, PyObject* value) {
-    long idx = -1;
-    if ( PyLong_Check(arg) ) {
-        idx = PyLong_AsLong(arg);
-        PyErr_Clear();
-    }
-    long _size = (long) self->_one_dimensional_array->_size;
-    int was_filled = idx >= 0 && idx < _size &&
-                     self->_one_dimensional_array->_data[idx] != Py_None;
-    if ( OneDimensionalArray___setitem__(self->_one_dimensional_array, arg, value) == -1 ) {
+    OneDimensionalArray* array = self->_one_dimensional_array;
+    long idx = (long) OneDimensionalArray__check_item(array, arg, value);
+    if ( idx == -1 ) {
         return -1;
     }
+    PyObject* old_value = array->_data[idx];
+    int was_filled = old_value != Py_None;
     int is_filled = value != Py_None;
+    Py_INCREF(value);
+    array->_data[idx] = value;
     self->_num += is_filled - was_filled;
     if ( is_filled ) {
         if ( idx > self->_last_pos_filled ) {
@@ -86,17 +91,21 @@ static int DynamicOneDimensionalArray___setitem__(DynamicOneDimensionalArray *se
     } else if ( idx == self->_last_pos_filled ) {
         self->_last_pos_filled -= 1;
     }
+    Py_XDECREF(old_value);
     return 0;
 }
 
 static PyObject* DynamicOneDimensionalArray_fill(DynamicOneDimensionalArray *self, PyObject *args) {
-    PyObject* result = OneDimensionalArray_fill(self->_one_dimensional_array, args);
-    if ( result ) {
-        self->_num = PyTuple_GetItem(args, 0) == Py_None ?
-                     0 : (long) self->_one_dimensional_array->_size;
-        self->_last_pos_filled = self->_num - 1;
+    OneDimensionalArray* array = self->_one_dimensional_array;
+    PyObject** old_data = OneDimensionalArray__fill(array, args);
+    if ( !old_data ) {
+        return NULL;
     }
-    return result;
+    size_t _size = array->_size;
+    self->_num = PyTuple_GetItem(args, 0) == Py_None ? 0 : (long) _size;
+    self->_last_pos_filled = self->_num - 1;
+    cleanup_partial_data(old_data, _size);
+    Py_RETURN_NONE;
 }
 
 static Py_ssize_t DynamicOneDimensionalArray___len__(DynamicOneDimensionalArray *self) {
@@ -110,19 +119,13 @@ static PyObject* DynamicOneDimensionalArray___str__(DynamicOneDimensionalArray *
 
 static PyObject* DynamicOneDimensionalArray__modify(DynamicOneDimensionalArray *self,
                                                     PyObject* args) {
-    PyObject* force = nullptr;
-    if ( args ) {
-        force = PyObject_GetItem(args, PyZero);
-    }
-    if ( !force ) {
-        PyErr_Clear();
-        force = Py_False;
-    }
+    PyRef force(args ? PyObject_GetItem(args, PyZero) : nullptr);
+    PyErr_Clear();
 
     long i, j;
     PyObject** _data = self->_one_dimensional_array->_data;
     long _size = (long) self->_one_dimensional_array->_size;
-    if ( force == Py_True ) {
+    if ( force.get() == Py_True ) {
         j = _size - 1;
         while ( j >= 0 && _data[j] == Py_None) {
             j--;
@@ -132,26 +135,28 @@ static PyObject* DynamicOneDimensionalArray__modify(DynamicOneDimensionalArray *
 
     if ( _size && ((float) self->_num)/((float) _size) < self->_load_factor ) {
         long new_size = 2 * self->_num + 1;
-        PyObject** arr_new = reinterpret_cast<PyObject**>(std::malloc(new_size * sizeof(PyObject*)));
+        PyObject** arr_new = allocate_data(new_size);
         if ( !arr_new ) {
-            return PyErr_NoMemory();
-        }
-        for( i = 0; i < new_size; i++ ) {
-            Py_INCREF(Py_None);
-            arr_new[i] = Py_None;
+            return NULL;
         }
         long j = 0;
         for( i = 0; i <= self->_last_pos_filled; i++ ) {
             if ( _data[i] != Py_None ) {
-                Py_INCREF(Py_None);
+                // The new array takes over the reference of the old one.
                 arr_new[j] = _data[i];
+                _data[i] = nullptr;
                 j += 1;
             }
         }
         self->_last_pos_filled = j - 1;
+        for( ; j < new_size; j++ ) {
+            Py_INCREF(Py_None);
+            arr_new[j] = Py_None;
+        }
         self->_one_dimensional_array->_data = arr_new;
         self->_one_dimensional_array->_size = new_size;
         self->_size = new_size;
+        cleanup_partial_data(_data, _size);
     }
 
     Py_RETURN_NONE;
@@ -166,44 +171,49 @@ static PyObject* DynamicOneDimensionalArray_append(DynamicOneDimensionalArray *s
 
     long _size = (long) self->_one_dimensional_array->_size;
     PyObject** _data = self->_one_dimensional_array->_data;
+    PyRef old_value;
     if ( self->_last_pos_filled + 1 == _size ) {
         long new_size = 2 * _size + 1;
-        PyObject** arr_new = reinterpret_cast<PyObject**>(std::malloc(new_size * sizeof(PyObject*)));
+        PyObject** arr_new = allocate_data(new_size);
         if ( !arr_new ) {
-            return PyErr_NoMemory();
+            Py_DECREF(el);
+            return NULL;
         }
         long i;
         for( i = 0; i <= self->_last_pos_filled; i++ ) {
             arr_new[i] = _data[i];
         }
         for( ; i < new_size; i++ ) {
+            Py_INCREF(Py_None);
             arr_new[i] = Py_None;
         }
-        arr_new[self->_last_pos_filled + 1] = el;
         self->_one_dimensional_array->_size = new_size;
         self->_size = new_size;
         self->_one_dimensional_array->_data = arr_new;
-    } else {
-        _data[self->_last_pos_filled + 1] = el;
+        std::free(_data);
+        _data = arr_new;
     }
+    old_value.reset(_data[self->_last_pos_filled + 1]);
+    _data[self->_last_pos_filled + 1] = el;
     self->_last_pos_filled += 1;
     self->_num += el != Py_None;
     PyObject* result = DynamicOneDimensionalArray__modify(self, NULL);
     if ( !result ) {
-        self->_one_dimensional_array->_data[self->_last_pos_filled] = Py_None;
+        self->_one_dimensional_array->_data[self->_last_pos_filled] = old_value.release();
         self->_last_pos_filled -= 1;
         self->_num -= el != Py_None;
+        Py_DECREF(el);
     }
     return result;
 }
 
 static PyObject* DynamicOneDimensionalArray_delete(DynamicOneDimensionalArray *self,
                                                    PyObject* args) {
-    PyObject* idx_pyobject = PyObject_GetItem(args, PyZero);
+    PyRef idx_pyobject(PyObject_GetItem(args, PyZero));
     if ( !idx_pyobject ) {
         return NULL;
     }
-    long idx = PyLong_AsLong(idx_pyobject);
+    long idx = PyLong_AsLong(idx_pyobject.get());
     if ( idx == -1 && PyErr_Occurred() ) {
         return NULL;
     }
@@ -211,8 +221,9 @@ static PyObject* DynamicOneDimensionalArray_delete(DynamicOneDimensionalArray *s
     PyObject** _data = self->_one_dimensional_array->_data;
     if ( idx <= self->_last_pos_filled && idx >= 0 &&
         _data[idx] != Py_None ) {
-        PyObject* el = _data[idx];
+        PyRef el(_data[idx]);
         long _last_pos_filled = self->_last_pos_filled;
+        Py_INCREF(Py_None);
         _data[idx] = Py_None;
         self->_num -= 1;
         if ( self->_last_pos_filled == idx ) {
@@ -220,7 +231,7 @@ static PyObject* DynamicOneDimensionalArray_delete(DynamicOneDimensionalArray *s
         }
         PyObject* result = DynamicOneDimensionalArray__modify(self, NULL);
         if ( !result ) {
-            _data[idx] = el;
+            _data[idx] = el.release();
             self->_num += 1;
             self->_last_pos_filled = _last_pos_filled;
         }
diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
index 45e3c6c..ee74168 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
@@ -15,11 +15,7 @@ typedef struct {
     PyObject* _dtype;
 } OneDimensionalArray;
 
-static void OneDimensionalArray_dealloc(OneDimensionalArray *self) {
-    std::free(self->_data);
-    Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
-}
-
+// Releases the elements and the memory for them.
 static void cleanup_partial_data(PyObject** data, size_t count) {
     if (data) {
         for (size_t i = 0; i < count; i++) {
@@ -29,17 +25,55 @@ static void cleanup_partial_data(PyObject** data, size_t count) {
     }
 }
 
+static void OneDimensionalArray_dealloc(OneDimensionalArray *self) {
+    cleanup_partial_data(self->_data, self->_size);
+    Py_XDECREF(self->_dtype);
+    Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
+}
+
+// Returns NULL with an exception set if there isn't enough memory.
+static PyObject** allocate_data(size_t size) {
+    PyObject** data = nullptr;
+    if (size <= (size_t)PY_SSIZE_T_MAX / sizeof(PyObject*)) {
+        data = reinterpret_cast<PyObject**>(std::malloc((size ? size : 1) * sizeof(PyObject*)));
+    }
+    if (!data) {
+        PyErr_NoMemory();
+    }
+    return data;
+}
+
+// Fills the new array with the elements of a list or a tuple.
+static int OneDimensionalArray__copy_data(OneDimensionalArray *self, PyObject *data, size_t size) {
+    PyObject** _data = allocate_data(size);
+    if (!_data) return -1;
+
+    for (size_t i = 0; i < size; i++) {
+        PyObject* value = get_item_at(data, i);
+        if (!value || raise_exception_if_dtype_mismatch(value, self->_dtype)) {
+            Py_XDECREF(value);
+            cleanup_partial_data(_data, i);
+            return -1;
+        }
+        _data[i] = value;
+    }
+    self->_data = _data;
+    self->_size = size;
+    return 0;
+}
+
 static PyObject* OneDimensionalArray___new__(PyTypeObject* type, PyObject *args,
                                              PyObject *kwds) {
     OneDimensionalArray *self;
     self = reinterpret_cast<OneDimensionalArray*>(type->tp_alloc(type, 0));
     if (!self) return NULL;
+    PyRef self_ref(reinterpret_cast<PyObject*>(self));
 
     self->_data = nullptr;
     self->_dtype = nullptr;
     self->_size = 0;
 
-    size_t len_args = PyObject_Length(args);
+    Py_ssize_t len_args = PyObject_Length(args);
     if (len_args < 0) return NULL;
 
     PyObject *dtype = PyObject_GetItem(args, PyZero);
@@ -62,11 +96,10 @@ static PyObject* OneDimensionalArray___new__(PyTypeObject* type, PyObject *args,
     }
 
     if (len_args == 3) {
-        PyObject *args0 = PyObject_GetItem(args, PyOne);
-        PyObject *args1 = PyObject_GetItem(args, PyTwo);
+        PyRef args0_ref(PyObject_GetItem(args, PyOne));
+        PyRef args1_ref(PyObject_GetItem(args, PyTwo));
+        PyObject *args0 = args0_ref.get(), *args1 = args1_ref.get();
         if (!args0 || !args1) {
-            Py_XDECREF(args0);
-            Py_XDECREF(args1);
             return NULL;
         }
         size_t size;
@@ -78,167 +111,73 @@ static PyObject* OneDimensionalArray___new__(PyTypeObject* type, PyObject *args,
             size = PyLong_AsUnsignedLong(args0);
             data = args1;
         } else {
-            Py_DECREF(args0);
-            Py_DECREF(args1);
             PyErr_SetString(PyExc_TypeError,
                             "Expected type of size is int and "
                             "expected type of data is list/tuple.");
             return NULL;
         }
         if (PyErr_Occurred()) {
-            Py_DECREF(args0);
-            Py_DECREF(args1);
             return NULL;
         }
-        size_t len_data = PyObject_Length(data);
+        Py_ssize_t len_data = PyObject_Length(data);
         if (len_data < 0) {
-            Py_DECREF(args0);
-            Py_DECREF(args1);
             return NULL;
         }
-        if (size != len_data) {
-            Py_DECREF(args0);
-            Py_DECREF(args1);
+        if (size != (size_t)len_data) {
             PyErr_Format(PyExc_ValueError,
                          "Conflict in the size, %zu and length of data, %zu",
-                         size, len_data);
+                         size, (size_t)len_data);
             return NULL;
         }
-        self->_size = size;
-        self->_data = reinterpret_cast<PyObject**>(std::malloc(size * sizeof(PyObject*)));
-        if (!self->_data) {
-            Py_DECREF(args0);
-            Py_DECREF(args1);
-            PyErr_NoMemory();
+        if (OneDimensionalArray__copy_data(self, data, size) == -1) {
             return NULL;
         }
-        for (size_t i = 0; i < size; i++) {
-            PyObject* idx = PyLong_FromSize_t(i);
-            if (!idx) {
-                cleanup_partial_data(self->_data, i);
-                self->_data = nullptr;
-                Py_DECREF(args0);
-                Py_DECREF(args1);
-                return NULL;
-            }
-
-            PyObject* value = PyObject_GetItem(data, idx);
-            Py_DECREF(idx);
-
-            if (!value) {
-                cleanup_partial_data(self->_data, i);
-                self->_data = nullptr;
-                Py_DECREF(args0);
-                Py_DECREF(args1);
-                return NULL;
-            }
-
-            if (raise_exception_if_dtype_mismatch(value, self->_dtype)) {
-                Py_DECREF(value);
-                cleanup_partial_data(self->_data, i);
-                self->_data = nullptr;
-                Py_DECREF(args0);
-                Py_DECREF(args1);
-                return NULL;
-            }
-            self->_data[i] = value;
-        }
-        Py_DECREF(args0);
-        Py_DECREF(args1);
 
     } else if (len_args == 2) {
-        PyObject *args0 = PyObject_GetItem(args, PyOne);
+        PyRef args0_ref(PyObject_GetItem(args, PyOne));
+        PyObject *args0 = args0_ref.get();
         if (!args0) return NULL;
         if (PyLong_Check(args0)) {
-            self->_size = PyLong_AsSize_t(args0);
+            size_t size = PyLong_AsSize_t(args0);
             if (PyErr_Occurred()) {
-                Py_DECREF(args0);
                 return NULL;
             }
-            PyObject* init = nullptr;
-            if (kwds) {
-                PyObject* init_key = PyUnicode_FromString("init");
-                if (init_key) {
-                    init = PyObject_GetItem(kwds, init_key);
-                    Py_DECREF(init_key);
-                    if (!init) {
-                        PyErr_Clear();
-                        init = Py_None;
-                    }
-                }
-            }
+            PyRef init_ref(get_keyword_argument(kwds, "init"));
+            PyObject* init = init_ref.get();
             if (!init) {
                 init = Py_None;
             }
             if (init != Py_None && raise_exception_if_dtype_mismatch(init, self->_dtype)) {
-                Py_DECREF(args0);
                 return NULL;
             }
-            self->_data = reinterpret_cast<PyObject**>(std::malloc(self->_size * sizeof(PyObject*)));
-            if (!self->_data) {
-                Py_DECREF(args0);
-                PyErr_NoMemory();
+            PyObject** _data = allocate_data(size);
+            if (!_data) {
                 return NULL;
             }
 
-            for (size_t i = 0; i < self->_size; i++) {
+            for (size_t i = 0; i < size; i++) {
                 Py_INCREF(init);
-                self->_data[i] = init;
+                _data[i] = init;
             }
+            self->_data = _data;
+            self->_size = size;
 
         } else if (PyList_Check(args0) || PyTuple_Check(args0)) {
             Py_ssize_t size_ssize = PyObject_Length(args0);
             if (size_ssize < 0) {
-                Py_DECREF(args0);
                 return NULL;
             }
-            self->_size = (size_t)size_ssize;
-            self->_data = reinterpret_cast<PyObject**>(std::malloc(self->_size * sizeof(PyObject*)));
-            if (!self->_data) {
-                Py_DECREF(args0);
-                PyErr_NoMemory();
+            if (OneDimensionalArray__copy_data(self, args0, (size_t)size_ssize) == -1) {
                 return NULL;
             }
-
-            for (size_t i = 0; i < self->_size; i++) {
-                PyObject* idx = PyLong_FromSize_t(i);
-                if (!idx) {
-                    cleanup_partial_data(self->_data, i);
-                    self->_data = nullptr;
-                    Py_DECREF(args0);
-                    return NULL;
-                }
-
-                PyObject* value = PyObject_GetItem(args0, idx);
-                Py_DECREF(idx);
-
-                if (!value) {
-                    cleanup_partial_data(self->_data, i);
-                    self->_data = nullptr;
-                    Py_DECREF(args0);
-                    return NULL;
-                }
-
-                if (raise_exception_if_dtype_mismatch(value, self->_dtype)) {
-                    Py_DECREF(value);
-                    cleanup_partial_data(self->_data, i);
-                    self->_data = nullptr;
-                    Py_DECREF(args0);
-                    return NULL;
-                }
-
-                self->_data[i] = value;
-            }
         } else {
-            Py_DECREF(args0);
             PyErr_SetString(PyExc_TypeError,
                             "Expected type of size is int and "
                             "expected type of data is list/tuple.");
             return NULL;
         }
-        Py_DECREF(args0);
     }
-    return reinterpret_cast<PyObject*>(self);
+    return self_ref.release();
 }
 
 static PyObject* OneDimensionalArray___getitem__(OneDimensionalArray *self,
@@ -265,8 +204,19 @@ static PyObject* OneDimensionalArray___getitem__(OneDimensionalArray *self,
     return result;
 }
 
-static int OneDimensionalArray___setitem__(OneDimensionalArray *self,
-                                          PyObject* arg, PyObject* value) {
+static int OneDimensionalArray__raise_if_out_of_range(OneDimensionalArray *self, long long idx) {
+    if (idx < 0 || idx >= (long long)self->_size) {
+        PyErr_Format(PyExc_IndexError,
+                     "Index %lld out of range [0, %zu)",
+                     idx, self->_size);
+        return 1;
+    }
+    return 0;
+}
+
+// Returns the index at which the value can be stored, -1 with an exception set otherwise.
+static long long OneDimensionalArray__check_item(OneDimensionalArray *self,
+                                                 PyObject* arg, PyObject* value) {
     if (!PyLong_Check(arg)) {
         PyErr_SetString(PyExc_TypeError, "Index must be an integer");
         return -1;
@@ -280,19 +230,27 @@ static int OneDimensionalArray___setitem__(OneDimensionalArray *self,
     long long idx_ll = PyLong_AsLongLong(arg);
     if (PyErr_Occurred()) return -1;
 
-    if (idx_ll < 0 || idx_ll >= (long long)self->_size) {
-        PyErr_Format(PyExc_IndexError,
-                     "Index %lld out of range [0, %zu)",
-                     idx_ll, self->_size);
+    if (OneDimensionalArray__raise_if_out_of_range(self, idx_ll)) {
         return -1;
     }
 
-    size_t idx = (size_t)idx_ll;
-
     if (value != Py_None) {
         if (set_exception_if_dtype_mismatch(value, self->_dtype)) {
             return -1;
         }
+        // The size may have been changed by the check of the type.
+        if (OneDimensionalArray__raise_if_out_of_range(self, idx_ll)) {
+            return -1;
+        }
+    }
+    return idx_ll;
+}
+
+static int OneDimensionalArray___setitem__(OneDimensionalArray *self,
+                                          PyObject* arg, PyObject* value) {
+    long long idx = OneDimensionalArray__check_item(self, arg, value);
+    if (idx == -1) {
+        return -1;
     }
     PyObject* old_value = self->_data[idx];
     Py_INCREF(value);
@@ -302,7 +260,9 @@ static int OneDimensionalArray___setitem__(OneDimensionalArray *self,
     return 0;
 }
 
-static PyObject* OneDimensionalArray_fill(OneDimensionalArray *self, PyObject *args) {
+// Returns the data from before the array was filled with the value, or NULL
+// with an exception set. It is to be released once the array is consistent.
+static PyObject** OneDimensionalArray__fill(OneDimensionalArray *self, PyObject *args) {
     if (PyTuple_Size(args) != 1) {
         PyErr_SetString(PyExc_TypeError, "fill() takes exactly one argument");
         return NULL;
@@ -315,13 +275,22 @@ static PyObject* OneDimensionalArray_fill(OneDimensionalArray *self, PyObject *a
         return NULL;
     }
 
+    PyObject** new_data = allocate_data(self->_size);
+    if (!new_data) return NULL;
+
     for (size_t i = 0; i < self->_size; i++) {
-        PyObject* old_value = self->_data[i];
         Py_INCREF(value);
-        self->_data[i] = value;
-        Py_XDECREF(old_value);
+        new_data[i] = value;
     }
+    PyObject** old_data = self->_data;
+    self->_data = new_data;
+    return old_data;
+}
 
+static PyObject* OneDimensionalArray_fill(OneDimensionalArray *self, PyObject *args) {
+    PyObject** old_data = OneDimensionalArray__fill(self, args);
+    if (!old_data) return NULL;
+    cleanup_partial_data(old_data, self->_size);
     Py_RETURN_NONE;
 }
 
diff --git a/pydatastructs/miscellaneous_data_structures/_backend/cpp/stack/ArrayStack.hpp b/pydatastructs/miscellaneous_data_structures/_backend/cpp/stack/ArrayStack.hpp
index 36633c0..57e9b40 100644
--- a/pydatastructs/miscellaneous_data_structures/_backend/cpp/stack/ArrayStack.hpp
+++ b/pydatastructs/miscellaneous_data_structures/_backend/cpp/stack/ArrayStack.hpp
@@ -13,12 +13,16 @@ typedef struct {
 } ArrayStack;
 
 static void ArrayStack_dealloc(ArrayStack *self) {
-    DynamicOneDimensionalArray_dealloc(self->_items);
+    Py_XDECREF(reinterpret_cast<PyObject*>(self->_items));
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
 static PyObject* ArrayStack__new__(PyTypeObject *type, PyObject *args, PyObject *kwds) {
     ArrayStack *self = reinterpret_cast<ArrayStack*>(type->tp_alloc(type, 0));
+    if (!self) {
+        return NULL;
+    }
+    PyRef self_ref(reinterpret_cast<PyObject*>(self));
 
     static char *kwlist[] = {"items", "dtype", NULL};
     PyObject *initial_values = Py_None, *dtype = Py_None;
@@ -35,28 +39,22 @@ static PyObject* ArrayStack__new__(PyTypeObject *type, PyObject *args, PyObject
         return NULL;
     }
 
-    PyObject* items = NULL;
-    PyObject* doda_kwds = Py_BuildValue("{}");
-    if (initial_values == Py_None) {
-        // If the only argument is the dtype, redefine the args as a tuple (dtype, 0)
-        // where 0 is the initial array size
-        PyObject* extended_args = PyTuple_Pack(2, dtype, PyLong_FromLong(0));
-
-        items = DynamicOneDimensionalArray___new__(&DynamicOneDimensionalArrayType, extended_args, doda_kwds);
-    } else {
-        // If the user provides dtype and initial values list, let the array initializer handle the checks.
-        PyObject* doda_args = PyTuple_Pack(2, dtype, initial_values);
-        items = DynamicOneDimensionalArray___new__(&DynamicOneDimensionalArrayType, doda_args, doda_kwds);
+    // If the only argument is the dtype, redefine the args as a tuple (dtype, 0)
+    // where 0 is the initial array size
+    // If the user provides dtype and initial values list, let the array initializer handle the checks.
+    PyRef doda_args(PyTuple_Pack(2, dtype, initial_values == Py_None ? PyZero : initial_values));
+    if (!doda_args) {
+        return NULL;
     }
+    PyObject* items = DynamicOneDimensionalArray___new__(&DynamicOneDimensionalArrayType, doda_args.get(), NULL);
 
     if (!items) {
         return NULL;
     }
 
-    DynamicOneDimensionalArray* tmp = self->_items;
     self->_items = reinterpret_cast<DynamicOneDimensionalArray*>(items);
 
-    return reinterpret_cast<PyObject*>(self);
+    return self_ref.release();
 }
 
 static PyObject* ArrayStack_is_empty(ArrayStack *self) {
@@ -70,42 +68,54 @@ static PyObject* ArrayStack_is_empty(ArrayStack *self) {
 }
 
 static PyObject* ArrayStack_push(ArrayStack *self, PyObject* args) {
-    size_t len_args = PyObject_Length(args);
+    Py_ssize_t len_args = PyObject_Length(args);
     if (len_args != 1) {
         PyErr_SetString(PyExc_ValueError, "Expected one argument");
         return NULL;
     }
 
-    if (PyObject_IsTrue(ArrayStack_is_empty(self))) {
-        self->_items->_one_dimensional_array->_dtype = reinterpret_cast<PyObject*>(
-            Py_TYPE(PyObject_GetItem(args, PyZero))
-        );
+    if (self->_items->_last_pos_filled == -1) {
+        PyRef item(PyObject_GetItem(args, PyZero));
+        if (!item) {
+            return NULL;
+        }
+        PyObject* dtype = reinterpret_cast<PyObject*>(Py_TYPE(item.get()));
+        Py_INCREF(dtype);
+        PyRef old_dtype(self->_items->_one_dimensional_array->_dtype);
+        self->_items->_one_dimensional_array->_dtype = dtype;
     }
 
-    DynamicOneDimensionalArray_append(self->_items, args);
-
-    Py_RETURN_NONE;
+    return DynamicOneDimensionalArray_append(self->_items, args);
 }
 
 static PyObject* ArrayStack_pop(ArrayStack *self) {
-    if (PyObject_IsTrue(ArrayStack_is_empty(self))) {
+    if (self->_items->_last_pos_filled == -1) {
         PyErr_SetString(PyExc_IndexError, "Stack is empty");
         return NULL;
     }
 
-    PyObject *top_element = DynamicOneDimensionalArray___getitem__(
-        self->_items, PyLong_FromLong(self->_items->_last_pos_filled)
-    );
-
-    PyObject* last_pos_arg = PyTuple_Pack(1, PyLong_FromLong(self->_items->_last_pos_filled));
-    DynamicOneDimensionalArray_delete(self->_items, last_pos_arg);
-    return top_element;
+    PyRef last_pos_arg(Py_BuildValue("(l)", self->_items->_last_pos_filled));
+    if (!last_pos_arg) {
+        return NULL;
+    }
+    PyRef top_element(get_item_at(reinterpret_cast<PyObject*>(self->_items->_one_dimensional_array),
+                                  (size_t) self->_items->_last_pos_filled));
+    if (!top_element) {
+        return NULL;
+    }
+    PyRef deleted(DynamicOneDimensionalArray_delete(self->_items, last_pos_arg.get()));
+    if (!deleted) {
+        return NULL;
+    }
+    return top_element.release();
 }
 
 static PyObject* ArrayStack_peek(ArrayStack *self, void *closure) {
-    return DynamicOneDimensionalArray___getitem__(
-        self->_items, PyLong_FromLong(self->_items->_last_pos_filled)
-    );
+    PyRef last_pos(PyLong_FromLong(self->_items->_last_pos_filled));
+    if (!last_pos) {
+        return NULL;
+    }
+    return DynamicOneDimensionalArray___getitem__(self->_items, last_pos.get());
 }
 
 static Py_ssize_t ArrayStack__len__(ArrayStack *self) {
diff --git a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
index e9bf785..369ce5f 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
@@ -21,47 +21,69 @@ typedef struct {
 } BinaryIndexedTree;
 
 static void BinaryIndexedTree_dealloc(BinaryIndexedTree *self) {
+    Py_XDECREF(reinterpret_cast<PyObject*>(self->array));
+    Py_XDECREF(self->tree);
+    Py_XDECREF(self->flag);
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
-static PyObject* BinaryIndexedTree_update(BinaryIndexedTree* self, PyObject *args) {
-    long index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
-    long value = PyLong_AsLong(PyObject_GetItem(args, PyOne));
-    if (PyErr_Occurred()) {
-        return NULL;
+// An exception is set if the argument is missing or isn't an integer which fits.
+static long BinaryIndexedTree__get_argument(PyObject *args, size_t position) {
+    PyRef argument(get_item_at(args, position));
+    if (!argument) {
+        return -1;
     }
+    return PyLong_AsLong(argument.get());
+}
+
+static PyObject* BinaryIndexedTree__update_impl(BinaryIndexedTree* self, long index, long value) {
     if (index < 0 || index >= (long) self->array->_size) {
         PyErr_Format(PyExc_IndexError, "Index, %ld out of range, [0, %ld).",
                      index, (long) self->array->_size);
         return NULL;
     }
     long _index = index;
-    long _value = value;
+    PyObject* new_value = PyLong_FromLong(value);
+    if (!new_value) {
+        return NULL;
+    }
     if (PyList_GetItem(self->flag, index) == PyZero) {
+        Py_INCREF(PyOne);
         PyList_SetItem(self->flag, index, PyOne);
-        index += 1;
-        while (index < self->array->_size + 1) {
-            long curr = PyLong_AsLong(PyList_GetItem(self->tree, index));
-            PyList_SetItem(self->tree, index, PyLong_FromLong(curr + value));
-            index = index + (index & (-1*index));
-        }
     }
     else {
         value = value - PyLong_AsLong(self->array->_data[index]);
-        index += 1;
-        while (index < self->array->_size + 1) {
-            long curr = PyLong_AsLong(PyList_GetItem(self->tree, index));
-            PyList_SetItem(self->tree, index, PyLong_FromLong(curr + value));
-            index = index + (index & (-1*index));
-        }
     }
-    self->array->_data[_index] = PyLong_FromLong(_value);
+    index += 1;
+    while (index < (long) self->array->_size + 1) {
+        long curr = PyLong_AsLong(PyList_GetItem(self->tree, index));
+        PyList_SetItem(self->tree, index, PyLong_FromLong(curr + value));
+        index = index + (index & (-1*index));
+    }
+    PyRef old_value(self->array->_data[_index]);
+    self->array->_data[_index] = new_value;
     Py_RETURN_NONE;
 }
 
+static PyObject* BinaryIndexedTree_update(BinaryIndexedTree* self, PyObject *args) {
+    long index = BinaryIndexedTree__get_argument(args, 0);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
+    long value = BinaryIndexedTree__get_argument(args, 1);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
+    return BinaryIndexedTree__update_impl(self, index, value);
+}
+
 static PyObject* BinaryIndexedTree___new__(PyTypeObject* type, PyObject *args, PyObject *kwds) {
     BinaryIndexedTree *self;
     self = reinterpret_cast<BinaryIndexedTree*>(type->tp_alloc(type, 0));
+    if ( !self ) {
+        return NULL;
+    }
+    PyRef self_ref(reinterpret_cast<PyObject*>(self));
 
     // Python code is such that arguments  are: type(array[0]) and array
 
@@ -73,26 +95,35 @@ static PyObject* BinaryIndexedTree___new__(PyTypeObject* type, PyObject *args, P
         return NULL;
     }
     self->array = reinterpret_cast<OneDimensionalArray*>(_one_dimensional_array);
-    self->tree = PyList_New(self->array->_size+2);
-    for(int i=0;i<self->array->_size+2;i++) {
+    long size = (long) self->array->_size;
+    self->tree = PyList_New(size+2);
+    self->flag = PyList_New(size);
+    if ( !self->tree || !self->flag ) {
+        return NULL;
+    }
+    for(long i=0;i<size+2;i++) {
+        Py_INCREF(PyZero);
         PyList_SetItem(self->tree, i, PyZero);
     }
-    self->flag = PyList_New(self->array->_size);
-    for(int i=0;i<self->array->_size;i++) {
+    for(long i=0;i<size;i++) {
+        Py_INCREF(PyZero);
         PyList_SetItem(self->flag, i, PyZero);
-        if (!BinaryIndexedTree_update(self, Py_BuildValue("(OO)", PyLong_FromLong(i), self->array->_data[i]))) {
+    }
+    for(long i=0;i<size;i++) {
+        long value = PyLong_AsLong(self->array->_data[i]);
+        if (PyErr_Occurred()) {
+            return NULL;
+        }
+        PyRef updated(BinaryIndexedTree__update_impl(self, i, value));
+        if (!updated) {
             return NULL;
         }
     }
 
-    return reinterpret_cast<PyObject*>(self);
+    return self_ref.release();
 }
 
-static PyObject* BinaryIndexedTree_get_prefix_sum(BinaryIndexedTree* self, PyObject *args) {
-    long index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
-    if (PyErr_Occurred()) {
-        return NULL;
-    }
+static PyObject* BinaryIndexedTree__prefix_sum_impl(BinaryIndexedTree* self, long index) {
     if (index >= (long) self->array->_size) {
         PyErr_Format(PyExc_IndexError, "Index, %ld out of range, [0, %ld).",
                      index, (long) self->array->_size);
@@ -108,22 +139,36 @@ static PyObject* BinaryIndexedTree_get_prefix_sum(BinaryIndexedTree* self, PyObj
     return PyLong_FromLong(sum);
 }
 
+static PyObject* BinaryIndexedTree_get_prefix_sum(BinaryIndexedTree* self, PyObject *args) {
+    long index = BinaryIndexedTree__get_argument(args, 0);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
+    return BinaryIndexedTree__prefix_sum_impl(self, index);
+}
+
 static PyObject* BinaryIndexedTree_get_sum(BinaryIndexedTree* self, PyObject *args) {
-    long left_index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
-    long right_index = PyLong_AsLong(PyObject_GetItem(args, PyOne));
+    long left_index = BinaryIndexedTree__get_argument(args, 0);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
+    long right_index = BinaryIndexedTree__get_argument(args, 1);
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
     if (left_index >= 1) {
-        PyObject* s1 = BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(right_index)));
+        PyRef s1(BinaryIndexedTree__prefix_sum_impl(self, right_index));
         if (!s1) {
             return NULL;
         }
-        PyObject* s2 = BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(left_index - 1)));
+        PyRef s2(BinaryIndexedTree__prefix_sum_impl(self, left_index - 1));
         if (!s2) {
             return NULL;
         }
-        return PyNumber_Subtract(s1, s2);
+        return PyNumber_Subtract(s1.get(), s2.get());
     }
     else {
-        return BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(right_index)));
+        return BinaryIndexedTree__prefix_sum_impl(self, right_index);
     }
 }
 
diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index 5c7005c..875b53a 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -64,59 +64,107 @@ public:
     }
 };
 
-static const char* _encoding = "utf-8";
-static const char* _invalid_char = "<invalid-character>";
+static PyObject* get_item_at(PyObject* array, size_t idx) {
+    PyRef idx_PyObject(PyLong_FromSize_t(idx));
+    if ( !idx_PyObject ) {
+        return NULL;
+    }
+    return PyObject_GetItem(array, idx_PyObject.get());
+}
 
-static char* PyObject_AsString(PyObject* obj) {
-    return PyBytes_AS_STRING(PyUnicode_AsEncodedString(obj, _encoding, _invalid_char));
+static int set_item_at(PyObject* array, size_t idx, PyObject* value) {
+    PyRef idx_PyObject(PyLong_FromSize_t(idx));
+    if ( !idx_PyObject ) {
+        return -1;
+    }
+    return PyObject_SetItem(array, idx_PyObject.get(), value);
+}
+
+// Returns -1 with an exception set if the elements can't be swapped.
+static int swap_items_at(PyObject* array, size_t i, size_t j) {
+    PyRef u(get_item_at(array, i));
+    if ( !u ) {
+        return -1;
+    }
+    PyRef v(get_item_at(array, j));
+    if ( !v ) {
+        return -1;
+    }
+    if ( set_item_at(array, i, v.get()) == -1 ) {
+        return -1;
+    }
+    return set_item_at(array, j, u.get());
+}
+
+// Returns a new reference, or NULL without an exception if there is no such argument.
+static PyObject* get_keyword_argument(PyObject* kwds, const char* name) {
+    PyObject* value = kwds ? PyDict_GetItemString(kwds, name) : NULL;
+    Py_XINCREF(value);
+    return value;
 }
 
 static PyObject* __str__(PyObject** array, size_t size, long last_pos_filled=-1) {
     std::string array___str__ = "[";
     size_t end = last_pos_filled == -1 ? size : (size_t) (last_pos_filled + 1);
+    // The array may be changed by the conversions of its elements.
+    PyRef elements(PyList_New((Py_ssize_t) end));
+    if ( !elements ) {
+        return NULL;
+    }
     for( size_t i = 0; i < end; i++ ) {
-        if ( array[i] == Py_None ) {
+        Py_INCREF(array[i]);
+        PyList_SET_ITEM(elements.get(), (Py_ssize_t) i, array[i]);
+    }
+    for( size_t i = 0; i < end; i++ ) {
+        PyObject* element = PyList_GET_ITEM(elements.get(), (Py_ssize_t) i);
+        if ( element == Py_None ) {
             array___str__.append("''");
         } else {
-            PyObject* array_i = PyObject_Str(array[i]);
-            char* i___str__ = PyObject_AsString(array_i);
-            array___str__.append("'" + std::string(i___str__) + "'");
+            PyRef array_i(PyObject_Str(element));
+            if ( !array_i ) {
+                return NULL;
+            }
+            PyRef i___str__(PyUnicode_AsEncodedString(array_i.get(), "utf-8", "surrogatepass"));
+            if ( !i___str__ ) {
+                return NULL;
+            }
+            array___str__.append("'" + std::string(PyBytes_AS_STRING(i___str__.get()),
+                                                   PyBytes_GET_SIZE(i___str__.get())) + "'");
         }
         if ( i + 1 != end ) {
             array___str__.append(", ");
         }
     }
     array___str__.push_back(']');
-    return PyUnicode_FromString(array___str__.c_str());
+    return PyUnicode_Decode(array___str__.data(), (Py_ssize_t) array___str__.size(),
+                            "utf-8", "surrogatepass");
 }
 
 static int set_exception_if_dtype_mismatch(PyObject* value, PyObject* dtype) {
-    if ( !PyObject_IsInstance(value, dtype) ) {
+    int is_instance = PyObject_IsInstance(value, dtype);
+    if ( is_instance == 0 ) {
         PyErr_Format(PyExc_TypeError,
-            "Unable to store %s object in %s type array.",
-            PyObject_AsString(PyObject_Repr(PyObject_Type(value))),
-            PyObject_AsString(PyObject_Repr(dtype)));
-        return 1;
+            "Unable to store %R object in %R type array.",
+            (PyObject*) Py_TYPE(value), dtype);
     }
-    return 0;
+    return is_instance != 1;
 }
 
 static int raise_exception_if_dtype_mismatch(PyObject* value, PyObject* dtype) {
-    if ( !PyObject_IsInstance(value, dtype) ) {
+    int is_instance = PyObject_IsInstance(value, dtype);
+    if ( is_instance == 0 ) {
         PyErr_Format(PyExc_TypeError,
-        "Unable to store %s object in %s type array.",
-        PyObject_AsString(PyObject_Repr(PyObject_Type(value))),
-        PyObject_AsString(PyObject_Repr(dtype)));
-        return 1;
+        "Unable to store %R object in %R type array.",
+        (PyObject*) Py_TYPE(value), dtype);
     }
-    return 0;
+    return is_instance != 1;
 }
 
 static int raise_exception_if_not_array(PyObject* arg) {
     PyErr_Format(PyExc_TypeError,
-        ("Unable to sort %s data structure. "
+        ("Unable to sort %R data structure. "
          "Only accepted types are OneDimensionalArray and DynamicOneDinesionalArray"),
-        PyObject_AsString(PyObject_Repr(PyObject_Type(arg)))
+        (PyObject*) Py_TYPE(arg)
     );
     return 1;
 }
@@ -146,15 +194,16 @@ static int _comp(PyObject* u, PyObject* v, PyObject* tcomp) {
         if ( !result_PyObject ) {
             return -1;
         }
-        return result_PyObject == Py_True;
+        int is_true = result_PyObject == Py_True;
+        Py_DECREF(result_PyObject);
+        return is_true;
     }
 
     int result = PyObject_RichCompareBool(u, v, Py_LE);
     if ( result == -1 ) {
         PyErr_Format(PyExc_ValueError,
-            "Unable to compare %s object with %s object.",
-            PyObject_AsString(PyObject_Repr(PyObject_Type(u))),
-            PyObject_AsString(PyObject_Repr(PyObject_Type(v)))
+            "Unable to compare %R object with %R object.",
+            (PyObject*) Py_TYPE(u), (PyObject*) Py_TYPE(v)
         );
     }
     return result;
-- 
2.43.0


From 5e814b88a40a33c02fae1bba24e1b9d099abada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:16 +0000
Subject: [PATCH 68/78] fix: C++ graphs with edges in both directions were
 never released, releasing a long one crashed

---
 .../graphs/_backend/cpp/AdjacencyList.hpp     | 18 +++++++------
 .../graphs/_backend/cpp/AdjacencyMatrix.hpp   |  8 +++---
 .../_backend/cpp/AdjacencyListGraphNode.hpp   | 27 ++++++++++++++++++-
 .../utils/_backend/cpp/graph_utils.cpp        |  6 ++---
 4 files changed, 43 insertions(+), 16 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
index 14975c2..b96fa6e 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
@@ -31,17 +31,18 @@ static void AdjacencyListGraph_dealloc(AdjacencyListGraph* self) {
     for (AdjacencyListGraphNode* node : self->nodes) {
         Py_XDECREF(node);
     }
-    self->nodes.clear();
-
     for (auto& pair : self->edges) {
         Py_XDECREF(pair.second);
     }
-    self->edges.clear();
 
-    self->node_map.clear();
-    self->id_map.clear();
-    self->id_to_name.clear();
-    self->name_to_id.clear();
+    std::destroy_at(&self->nodes);
+    std::destroy_at(&self->edges);
+    std::destroy_at(&self->node_map);
+    std::destroy_at(&self->id_map);
+    std::destroy_at(&self->id_to_name);
+    std::destroy_at(&self->name_to_id);
+
+    Py_XDECREF(self->dict);
 
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
@@ -59,6 +60,7 @@ static PyObject* AdjacencyListGraph_new(PyTypeObject* type, PyObject* args, PyOb
     new (&self->name_to_id) std::unordered_map<std::string, int>();
 
     self->next_id = 0;
+    PyRef self_ref(reinterpret_cast<PyObject*>(self));
 
     Py_ssize_t num_args = PyTuple_Size(args);
     for (Py_ssize_t i = 0; i < num_args; ++i) {
@@ -92,7 +94,7 @@ static PyObject* AdjacencyListGraph_new(PyTypeObject* type, PyObject* args, PyOb
     }
 
     Py_DECREF(impl_str);
-    return reinterpret_cast<PyObject*>(self);
+    return self_ref.release();
 }
 
 // Names cannot contain null characters, hence keys are unambiguous.
diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
index cd4cf5b..cc70729 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
@@ -26,15 +26,15 @@ static void AdjacencyMatrixGraph_dealloc(AdjacencyMatrixGraph* self)
     for (auto& pair : self->edge_weights) {
         Py_XDECREF(pair.second);
     }
-    self->edge_weights.clear();
 
     for (AdjacencyMatrixGraphNode* node : self->nodes) {
         Py_XDECREF(node);
     }
-    self->nodes.clear();
 
-    self->node_map.clear();
-    self->matrix.clear();
+    std::destroy_at(&self->edge_weights);
+    std::destroy_at(&self->nodes);
+    std::destroy_at(&self->node_map);
+    std::destroy_at(&self->matrix);
 
     Py_XDECREF(self->dict);
 
diff --git a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
index 4cd0bfd..15e9dc0 100644
--- a/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/AdjacencyListGraphNode.hpp
@@ -20,7 +20,30 @@ typedef struct {
     std::unordered_map<std::string, PyObject*> adjacent;
 } AdjacencyListGraphNode;
 
+// Adjacent nodes refer to each other, hence nodes are known to the garbage collector.
+static int AdjacencyListGraphNode_traverse(AdjacencyListGraphNode* self, visitproc visit, void* arg) {
+    if (self->data_type == DataType::PyObject) {
+        Py_VISIT(std::get<PyObject*>(self->data));
+    }
+    for (auto& pair : self->adjacent) {
+        Py_VISIT(pair.second);
+    }
+    return 0;
+}
+
+static int AdjacencyListGraphNode_clear(AdjacencyListGraphNode* self) {
+    std::unordered_map<std::string, PyObject*> adjacent;
+    self->adjacent.swap(adjacent);
+    for (auto& pair : adjacent) {
+        Py_XDECREF(pair.second);
+    }
+    return graph_data_from(Py_None, self->data, self->data_type);
+}
+
 static void AdjacencyListGraphNode_dealloc(AdjacencyListGraphNode* self) {
+    PyObject_GC_UnTrack(self);
+    // Long chains of nodes would exhaust the stack otherwise.
+    Py_TRASHCAN_BEGIN(self, AdjacencyListGraphNode_dealloc)
     if (self->data_type == DataType::PyObject) {
         Py_XDECREF(std::get<PyObject*>(self->data));
     }
@@ -32,10 +55,11 @@ static void AdjacencyListGraphNode_dealloc(AdjacencyListGraphNode* self) {
     std::destroy_at(&self->name);
     std::destroy_at(&self->data);
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
+    Py_TRASHCAN_END
 }
 
 static PyObject* AdjacencyListGraphNode_new(PyTypeObject* type, PyObject* args, PyObject* kwds) {
-    AdjacencyListGraphNode* self = PyObject_New(AdjacencyListGraphNode, &AdjacencyListGraphNodeType);
+    AdjacencyListGraphNode* self = PyObject_GC_New(AdjacencyListGraphNode, &AdjacencyListGraphNodeType);
     if (!self) return NULL;
     self->type_tag = NodeType_::AdjacencyListGraphNode;
     new (&self->adjacent) std::unordered_map<std::string, PyObject*>();
@@ -80,6 +104,7 @@ static PyObject* AdjacencyListGraphNode_new(PyTypeObject* type, PyObject* args,
         }
     }
 
+    PyObject_GC_Track(reinterpret_cast<PyObject*>(self));
     return reinterpret_cast<PyObject*>(self);
 }
 
diff --git a/pydatastructs/utils/_backend/cpp/graph_utils.cpp b/pydatastructs/utils/_backend/cpp/graph_utils.cpp
index cf7ec15..70b7c25 100644
--- a/pydatastructs/utils/_backend/cpp/graph_utils.cpp
+++ b/pydatastructs/utils/_backend/cpp/graph_utils.cpp
@@ -64,10 +64,10 @@ PyTypeObject AdjacencyListGraphNodeType = {
     /* tp_getattro */ 0,
     /* tp_setattro */ 0,
     /* tp_as_buffer */ 0,
-    /* tp_flags */ Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE,
+    /* tp_flags */ Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE | Py_TPFLAGS_HAVE_GC,
     /* tp_doc */ "Node Data Structure for an Adjacency List Graph",
-    /* tp_traverse */ 0,
-    /* tp_clear */ 0,
+    /* tp_traverse */ (traverseproc)AdjacencyListGraphNode_traverse,
+    /* tp_clear */ (inquiry)AdjacencyListGraphNode_clear,
     /* tp_richcompare */ 0,
     /* tp_weaklistoffset */ 0,
     /* tp_iter */ 0,
-- 
2.43.0


From 6f03ff06ea81252425ebad8de9a0f847d605f2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:45 +0000
Subject: [PATCH 69/78] fix: C++ lowest common ancestor replaced errors of key
 comparisons by SystemError

---
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 0d4ec52..798db18 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -497,8 +497,11 @@ static PyObject* BinarySearchTree__lca_1(BinarySearchTree* self, PyObject* args)
     BinaryTree* bt = self->binary_tree;
     PyObject* root = bt->root_idx;
     PyObject* path1 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",key1,root));
+    if (!path1) {
+        return NULL;
+    }
     PyObject* path2 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",key2,root));
-    if (!path1 || !path2) {
+    if (!path2) {
         return NULL;
     }
     long n = PyLong_AsLong(PyLong_FromSsize_t(PyList_Size(path1)));
-- 
2.43.0


From 29c0e33399c15b0bea338ec57b5fb1043d77aa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:12 +0000
Subject: [PATCH 70/78] fix: text of C++ edges between objects which are not
 C++ vertices

---
 pydatastructs/utils/_backend/cpp/GraphEdge.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
index a5de1c9..417a101 100644
--- a/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
+++ b/pydatastructs/utils/_backend/cpp/GraphEdge.hpp
@@ -85,9 +85,20 @@ static PyObject* GraphEdge_new(PyTypeObject* type, PyObject* args, PyObject* kwd
     return reinterpret_cast<PyObject*>(self);
 }
 
+// The name of an end of an edge, which may be any object with a name.
+static inline bool GraphEdge_end_name(PyObject* end, std::string& name) {
+    PyObject* obj = PyObject_GetAttrString(end, "name");
+    if (!obj) return false;
+    bool found = graph_string_from(obj, name);
+    Py_DECREF(obj);
+    return found;
+}
+
 static PyObject* GraphEdge_str(GraphEdge* self) {
-    std::string src = reinterpret_cast<GraphNode*>(self->source)->name;
-    std::string tgt = reinterpret_cast<GraphNode*>(self->target)->name;
+    std::string src, tgt;
+    if (!GraphEdge_end_name(self->source, src) || !GraphEdge_end_name(self->target, tgt)) {
+        return NULL;
+    }
     std::string val_str;
 
     switch (self->value_type) {
-- 
2.43.0


From ba838c10d0f118951f638bcd9f7825f9eb647d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:15 +0000
Subject: [PATCH 71/78] fix: bounds of keys in deep binary search trees

---
 pydatastructs/trees/binary_trees.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index bd4f5b7..7baa1a7 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -302,25 +302,17 @@ class BinarySearchTree(BinaryTree):
         return (walk, parent) if ret_parent else walk
 
     def _bound_helper(self, node_idx, bound_key, is_upper=False):
-        if node_idx is None:
-            return None
-        if self.tree[node_idx].key is None:
-            return None
-
-        if self.tree[node_idx].key == bound_key:
-            if not is_upper:
-                return self.tree[node_idx].key
+        bound = None
+        while node_idx is not None and self.tree[node_idx].key is not None:
+            key = self.tree[node_idx].key
+            if key == bound_key and not is_upper:
+                return key
+            if key == bound_key or self.comparator(key, bound_key):
+                node_idx = self.tree[node_idx].right
             else:
-                return self._bound_helper(self.tree[node_idx].right,
-                                            bound_key, is_upper)
-
-        if self.comparator(self.tree[node_idx].key, bound_key):
-            return self._bound_helper(self.tree[node_idx].right,
-                                            bound_key, is_upper)
-        else:
-            res_bound = self._bound_helper(self.tree[node_idx].left,
-                                                   bound_key, is_upper)
-            return res_bound if res_bound is not None else self.tree[node_idx].key
+                bound = key
+                node_idx = self.tree[node_idx].left
+        return bound
 
 
     def lower_bound(self, key, **kwargs):
-- 
2.43.0


From ceadf6a732b98b89012f8349e2a84866cb0f89c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:22 +0000
Subject: [PATCH 72/78] fix: strong components, bridges and flows of graphs
 with long paths

---
 pydatastructs/graphs/algorithms.py | 121 ++++++++++++++++++-----------
 1 file changed, 74 insertions(+), 47 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 99ee022..0590f2b 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -555,29 +555,42 @@ _strongly_connected_components_kosaraju_adjacency_matrix = \
     _strongly_connected_components_kosaraju_adjacency_list
 
 def _tarjan_dfs(u, graph, index, stack, indices, low_links, on_stacks, components):
-    indices[u] = index[0]
-    low_links[u] = index[0]
-    index[0] += 1
-    stack.append(u)
-    on_stacks[u] = True
-
-    for node in graph.neighbors(u):
-        v = node.name
-        if indices[v] == -1:
-            _tarjan_dfs(v, graph, index, stack, indices, low_links, on_stacks, components)
-            low_links[u] = min(low_links[u], low_links[v])
-        elif on_stacks[v]:
-            low_links[u] = min(low_links[u], low_links[v])
-
-    if low_links[u] == indices[u]:
-        component = set()
-        while stack:
-            w = stack.pop()
-            on_stacks[w] = False
-            component.add(w)
-            if w == u:
+    # The path to the current vertex with the neighbors left to be looked at.
+    path = []
+
+    def _enter(v):
+        indices[v] = index[0]
+        low_links[v] = index[0]
+        index[0] += 1
+        stack.append(v)
+        on_stacks[v] = True
+        path.append((v, iter(graph.neighbors(v))))
+
+    _enter(u)
+    while path:
+        u, neighbors = path[-1]
+        for node in neighbors:
+            v = node.name
+            if indices[v] == -1:
+                _enter(v)
                 break
-        components.append(component)
+            elif on_stacks[v]:
+                low_links[u] = min(low_links[u], low_links[v])
+        else:
+            path.pop()
+            if path:
+                parent = path[-1][0]
+                low_links[parent] = min(low_links[parent], low_links[u])
+
+            if low_links[u] == indices[u]:
+                component = set()
+                while stack:
+                    w = stack.pop()
+                    on_stacks[w] = False
+                    component.add(w)
+                    if w == u:
+                        break
+                components.append(component)
 
 def _strongly_connected_components_tarjan_adjacency_list(graph):
     index = [0] # mutable object
@@ -1256,21 +1269,25 @@ def _max_flow_edmonds_karp_(graph: Graph, source, sink):
 
 
 def _depth_first_search_max_flow_dinic(graph: Graph, u, parent, sink_node, flow, flow_passed):
-    if u == sink_node:
-        return flow
-
-    for next_node, residual in _residual_edges(graph, u, flow_passed):
-        if parent.get(next_node, None) == u and residual > 0:
-            path_flow = _depth_first_search_max_flow_dinic(graph,
-                                                           next_node,
-                                                           parent, sink_node,
-                                min(flow, residual), flow_passed)
-            if path_flow > 0:
+    # The path to the current node, the flow which can be
+    # pushed along it and the edges left to be looked at.
+    path = [(u, flow, iter(_residual_edges(graph, u, flow_passed)))]
+    while path:
+        u, flow, edges = path[-1]
+        if u == sink_node:
+            for (u, _, _), (next_node, _, _) in zip(path, path[1:]):
                 fp = flow_passed.get((u, next_node), 0)
-                flow_passed[(u, next_node)] = fp + path_flow
+                flow_passed[(u, next_node)] = fp + flow
                 fp = flow_passed.get((next_node, u), 0)
-                flow_passed[(next_node, u)] = fp - path_flow
-                return path_flow
+                flow_passed[(next_node, u)] = fp - flow
+            return flow
+        for next_node, residual in edges:
+            if parent.get(next_node, None) == u and residual > 0:
+                path.append((next_node, min(flow, residual),
+                    iter(_residual_edges(graph, next_node, flow_passed))))
+                break
+        else:
+            path.pop()
     return 0
 
 
@@ -1381,18 +1398,28 @@ def find_bridges(graph):
 
     def dfs(u):
         nonlocal time
-        visited[u] = True
-        disc[u] = low[u] = time
-        time += 1
-        for v in n_adj[u]:
-            if not visited[v]:
-                parent[v] = u
-                dfs(v)
-                low[u] = min(low[u], low[v])
-                if low[v] > disc[u]:
-                    bridges_idx.append((u, v))
-            elif v != parent[u]:
-                low[u] = min(low[u], disc[v])
+        # The path to the current vertex with the neighbors left to be looked at.
+        path = [(u, iter(n_adj[u]))]
+        while path:
+            u, neighbors = path[-1]
+            if not visited[u]:
+                visited[u] = True
+                disc[u] = low[u] = time
+                time += 1
+            for v in neighbors:
+                if not visited[v]:
+                    parent[v] = u
+                    path.append((v, iter(n_adj[v])))
+                    break
+                elif v != parent[u]:
+                    low[u] = min(low[u], disc[v])
+            else:
+                path.pop()
+                if path:
+                    v, u = u, path[-1][0]
+                    low[u] = min(low[u], low[v])
+                    if low[v] > disc[u]:
+                        bridges_idx.append((u, v))
 
     for i in range(n):
         if not visited[i]:
-- 
2.43.0


From 10594e71543a6d072bbb3a3b6d34e2087ec5bfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:07 +0000
Subject: [PATCH 73/78] fix: deleting keys that cannot be hashed failed
 half-way when a tree's array was contracted

---
 .../_backend/cpp/arrays/ArrayForTrees.hpp     |  8 ++---
 .../linear_data_structures/arrays.py          |  8 ++---
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 24 +++++---------
 .../trees/_backend/cpp/RedBlackTree.hpp       | 10 +++---
 pydatastructs/trees/binary_trees.py           | 33 +++++++------------
 5 files changed, 32 insertions(+), 51 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
index 4162079..e51ea31 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
@@ -115,7 +115,7 @@ static PyObject* ArrayForTrees__modify(ArrayForTrees *self,
             if (_data[i] != Py_None) {
                 Py_INCREF(Py_None);
                 arr_new[j] = _data[i];
-                PyObject_SetItem(new_indices, reinterpret_cast<TreeNode*>(_data[i])->key, PyLong_FromLong(j));
+                PyObject_SetItem(new_indices, PyLong_FromLong(i), PyLong_FromLong(j));
                 j += 1;
             }
         }
@@ -123,17 +123,17 @@ static PyObject* ArrayForTrees__modify(ArrayForTrees *self,
         for(int i=0;i<j;i++) {
             if (reinterpret_cast<TreeNode*>(arr_new[i])->left != Py_None) {
                 reinterpret_cast<TreeNode*>(arr_new[i])->left = PyObject_GetItem(
-                    new_indices, reinterpret_cast<TreeNode*>(_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(arr_new[i])->left)])->key
+                    new_indices, reinterpret_cast<TreeNode*>(arr_new[i])->left
                 );
             }
             if (reinterpret_cast<TreeNode*>(arr_new[i])->right != Py_None) {
                 reinterpret_cast<TreeNode*>(arr_new[i])->right = PyObject_GetItem(
-                    new_indices, reinterpret_cast<TreeNode*>(_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(arr_new[i])->right)])->key
+                    new_indices, reinterpret_cast<TreeNode*>(arr_new[i])->right
                 );
             }
             if (reinterpret_cast<TreeNode*>(arr_new[i])->parent != Py_None) {
                 reinterpret_cast<TreeNode*>(arr_new[i])->parent = PyObject_GetItem(
-                    new_indices, reinterpret_cast<TreeNode*>(_data[PyLong_AsLong(reinterpret_cast<TreeNode*>(arr_new[i])->parent)])->key
+                    new_indices, reinterpret_cast<TreeNode*>(arr_new[i])->parent
                 );
             }
         }
diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 18f1790..4485011 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -482,15 +482,15 @@ class ArrayForTrees(DynamicOneDimensionalArray):
             for i in range(self._last_pos_filled + 1):
                 if self[i] is not None:
                     arr_new[j] = self[i]
-                    new_indices[self[i].key] = j
+                    new_indices[i] = j
                     j += 1
             for i in range(j):
                 if arr_new[i].left is not None:
-                    arr_new[i].left = new_indices[self[arr_new[i].left].key]
+                    arr_new[i].left = new_indices[arr_new[i].left]
                 if arr_new[i].right is not None:
-                    arr_new[i].right = new_indices[self[arr_new[i].right].key]
+                    arr_new[i].right = new_indices[arr_new[i].right]
                 if arr_new[i].parent is not None:
-                    arr_new[i].parent = new_indices[self[arr_new[i].parent].key]
+                    arr_new[i].parent = new_indices[arr_new[i].parent]
             self._last_pos_filled = j - 1
             self._data = arr_new._data
             self._size = arr_new._size
diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 798db18..23207aa 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -135,13 +135,12 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
 // Adds the node to the array and returns its index.
 static PyObject* BinarySearchTree__append_node(BinarySearchTree* self, TreeNode* new_node) {
     BinaryTree* bt = self->binary_tree;
-    PyObject* root_key = BinaryTree__node(bt, bt->root_idx)->key;
     PyObject* new_indices = ArrayForTrees_append(bt->tree, Py_BuildValue( "[O]", reinterpret_cast<PyObject*>(new_node)) );
     if (!new_indices) {
         return NULL;
     }
     if (new_indices != Py_None) {
-        bt->root_idx = PyDict_GetItem(new_indices, root_key);
+        bt->root_idx = PyDict_GetItem(new_indices, bt->root_idx);
     }
     bt->size = bt->size + 1;
     return PyLong_FromLong(bt->tree->_last_pos_filled);
@@ -247,15 +246,13 @@ static PyObject* BinarySearchTree__delete_at(BinarySearchTree* self, PyObject* w
                 reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->right = Py_None;
             }
             a = parent;
-            PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->key;
-            PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",walk));
             if (!new_indices) {
                 return NULL;
             }
             if (new_indices != Py_None) {
-                a = PyDict_GetItem(new_indices, par_key);
-                bt->root_idx = PyDict_GetItem(new_indices, root_key);
+                a = PyDict_GetItem(new_indices, a);
+                bt->root_idx = PyDict_GetItem(new_indices, bt->root_idx);
             }
         }
         BinarySearchTree__update_size(self, Py_BuildValue("(O)",a));
@@ -284,15 +281,13 @@ static PyObject* BinarySearchTree__delete_at(BinarySearchTree* self, PyObject* w
 
         if (twalk != Py_None) {
             a = par;
-            PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(par)])->key;
-            PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",twalk));
             if (!new_indices) {
                 return NULL;
             }
             if (new_indices != Py_None) {
-                a = PyDict_GetItem(new_indices, par_key);
-                bt->root_idx = PyDict_GetItem(new_indices, root_key);
+                a = PyDict_GetItem(new_indices, a);
+                bt->root_idx = PyDict_GetItem(new_indices, bt->root_idx);
             }
         }
         BinarySearchTree__update_size(self, Py_BuildValue("(O)",a));
@@ -318,13 +313,12 @@ static PyObject* BinarySearchTree__delete_at(BinarySearchTree* self, PyObject* w
                     BinaryTree__node(bt, grand_child)->parent = bt->root_idx;
                 }
             }
-            PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",child));
             if (!new_indices) {
                 return NULL;
             }
             if (new_indices != Py_None) {
-                bt->root_idx = PyDict_GetItem(new_indices, root_key);
+                bt->root_idx = PyDict_GetItem(new_indices, bt->root_idx);
             }
             a = bt->root_idx;
             BinarySearchTree__update_size(self, Py_BuildValue("(O)",a));
@@ -338,15 +332,13 @@ static PyObject* BinarySearchTree__delete_at(BinarySearchTree* self, PyObject* w
             }
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(child)])->parent = parent;
             a = parent;
-            PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->key;
-            PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",walk));
             if (!new_indices) {
                 return NULL;
             }
             if (new_indices != Py_None) {
-                a = PyDict_GetItem(new_indices, par_key);
-                bt->root_idx = PyDict_GetItem(new_indices, root_key);
+                a = PyDict_GetItem(new_indices, a);
+                bt->root_idx = PyDict_GetItem(new_indices, bt->root_idx);
             }
             BinarySearchTree__update_size(self, Py_BuildValue("(O)",a));
         }
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 4374299..3295698 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -447,15 +447,13 @@ static PyObject* RedBlackTree__remove_node(RedBlackTree* self, PyObject *args) {
 
     PyObject* parent = RedBlackTree__get_parent(self, Py_BuildValue("(O)", node_idx));
     PyObject* a = parent;
-    PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->key;
-    PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
     PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)", node_idx));
     if (!new_indices) {
         return NULL;
     }
     if (new_indices != Py_None) {
-        a = PyDict_GetItem(new_indices, par_key);
-        bt->root_idx = PyDict_GetItem(new_indices, root_key);
+        a = PyDict_GetItem(new_indices, a);
+        bt->root_idx = PyDict_GetItem(new_indices, bt->root_idx);
     }
     BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", a));
     Py_RETURN_NONE;
@@ -471,10 +469,10 @@ static PyObject* RedBlackTree__delete_root(RedBlackTree* self, PyObject *args) {
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key = Py_None;
     }
     else if (RedBlackTree__has_one_child(self, Py_BuildValue("(O)", node_idx)) == Py_True) {
-        PyObject* root_key = RedBlackTree__transplant_values(self, Py_BuildValue("(OO)", node_idx, node_idx1));
+        RedBlackTree__transplant_values(self, Py_BuildValue("(OO)", node_idx, node_idx1));
         PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)", node_idx1));
         if (new_indices != Py_None) {
-            bt->root_idx = PyDict_GetItem(new_indices, root_key);
+            bt->root_idx = PyDict_GetItem(new_indices, bt->root_idx);
         }
         BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", bt->root_idx));
     }
diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 7baa1a7..59dd78e 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -246,10 +246,9 @@ class BinarySearchTree(BinaryTree):
         """
         Adds the node to the array and returns its index.
         """
-        root_key = self.tree[self.root_idx].key
         new_indices = self.tree.append(new_node)
         if new_indices is not None:
-            self.root_idx = new_indices[root_key]
+            self.root_idx = new_indices[self.root_idx]
         self.size += 1
         return self.tree._last_pos_filled
 
@@ -408,12 +407,10 @@ class BinarySearchTree(BinaryTree):
                 else:
                     self.tree[parent].right = None
                 a = parent
-                par_key, root_key = (self.tree[parent].key,
-                                     self.tree[self.root_idx].key)
                 new_indices = self.tree.delete(walk)
                 if new_indices is not None:
-                    a = new_indices[par_key]
-                    self.root_idx = new_indices[root_key]
+                    a = new_indices[a]
+                    self.root_idx = new_indices[self.root_idx]
             self._update_size(a)
 
         elif self.tree[walk].left is not None and \
@@ -435,12 +432,10 @@ class BinarySearchTree(BinaryTree):
                 self.tree[self.tree[twalk].right].parent = par
             if twalk is not None:
                 a = par
-                par_key, root_key = (self.tree[par].key,
-                                     self.tree[self.root_idx].key)
                 new_indices = self.tree.delete(twalk)
                 if new_indices is not None:
-                    a = new_indices[par_key]
-                    self.root_idx = new_indices[root_key]
+                    a = new_indices[a]
+                    self.root_idx = new_indices[self.root_idx]
             self._update_size(a)
 
         else:
@@ -457,10 +452,9 @@ class BinarySearchTree(BinaryTree):
                 for grand_child in (self.tree[child].left, self.tree[child].right):
                     if grand_child is not None:
                         self.tree[grand_child].parent = self.root_idx
-                root_key = self.tree[self.root_idx].key
                 new_indices = self.tree.delete(child)
                 if new_indices is not None:
-                    self.root_idx = new_indices[root_key]
+                    self.root_idx = new_indices[self.root_idx]
                 a = self.root_idx
                 self._update_size(a)
             else:
@@ -470,12 +464,10 @@ class BinarySearchTree(BinaryTree):
                     self.tree[parent].right = child
                 self.tree[child].parent = parent
                 a = parent
-                par_key, root_key = (self.tree[parent].key,
-                                     self.tree[self.root_idx].key)
                 new_indices = self.tree.delete(walk)
                 if new_indices is not None:
-                    a = new_indices[par_key]
-                    self.root_idx = new_indices[root_key]
+                    a = new_indices[a]
+                    self.root_idx = new_indices[self.root_idx]
                 self._update_size(a)
 
         if kwargs.get("balancing_info", False) is not False:
@@ -1537,11 +1529,10 @@ class RedBlackTree(SelfBalancingBinaryTree):
     def _remove_node(self, node_idx):
         parent = self._get_parent(node_idx)
         a = parent
-        par_key, root_key = (self.tree[parent].key, self.tree[self.root_idx].key)
         new_indices = self.tree.delete(node_idx)
         if new_indices is not None:
-            a = new_indices[par_key]
-            self.root_idx = new_indices[root_key]
+            a = new_indices[a]
+            self.root_idx = new_indices[self.root_idx]
         self._update_size(a)
 
     def _delete_root(self, node_idx, node_idx1):
@@ -1549,10 +1540,10 @@ class RedBlackTree(SelfBalancingBinaryTree):
             self.tree[self.root_idx].data = None
             self.tree[self.root_idx].key = None
         elif self._has_one_child(node_idx):
-            root_key = self._transplant_values(node_idx, node_idx1)
+            self._transplant_values(node_idx, node_idx1)
             new_indices = self.tree.delete(node_idx1)
             if new_indices is not None:
-                self.root_idx = new_indices[root_key]
+                self.root_idx = new_indices[self.root_idx]
             self._update_size(self.root_idx)
 
     def __leaf_case(self, node_idx, node_idx1):
-- 
2.43.0


From 928a1f1c6cbeded4864c53e7f4231faf258c5992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:38 +0000
Subject: [PATCH 74/78] fix: sorts ignored comparisons which are true without
 being True

---
 pydatastructs/linear_data_structures/algorithms.py | 6 +++---
 pydatastructs/utils/_backend/cpp/utils.hpp         | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index ec796d9..255d17a 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -682,13 +682,13 @@ def cocktail_shaker_sort(array: Array, **kwargs) -> Array:
 
         swapping = True
         for j in range(lower, upper):
-            if _comp(array[j], array[j+1], comp) is False:
+            if not _comp(array[j], array[j+1], comp):
                 swap(j + 1, j)
                 swapping = False
 
         upper = upper - 1
         for j in range(upper, lower, -1):
-            if _comp(array[j-1], array[j], comp) is False:
+            if not _comp(array[j-1], array[j], comp):
                 swap(j, j - 1)
                 swapping = False
         lower = lower + 1
@@ -778,7 +778,7 @@ def quick_sort(array: Array, **kwargs) -> Array:
                 array[j], array[high] = array[high], array[j]
                 break
         for j in range(low , high):
-            if _comp(array[j], x, comp) is True:
+            if _comp(array[j], x, comp):
                 i = i + 1
                 array[i], array[j] = array[j], array[i]
         array[i + 1], array[high] = array[high], array[i + 1]
diff --git a/pydatastructs/utils/_backend/cpp/utils.hpp b/pydatastructs/utils/_backend/cpp/utils.hpp
index 875b53a..891390d 100644
--- a/pydatastructs/utils/_backend/cpp/utils.hpp
+++ b/pydatastructs/utils/_backend/cpp/utils.hpp
@@ -194,7 +194,7 @@ static int _comp(PyObject* u, PyObject* v, PyObject* tcomp) {
         if ( !result_PyObject ) {
             return -1;
         }
-        int is_true = result_PyObject == Py_True;
+        int is_true = PyObject_IsTrue(result_PyObject);
         Py_DECREF(result_PyObject);
         return is_true;
     }
-- 
2.43.0


From 5dc81ec8a4cbe0b066760d3e43f8b981cdc8e9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:36 +0000
Subject: [PATCH 75/78] fix: removing a vertex ran code of its data while the
 C++ graph was being changed

---
 .../graphs/_backend/cpp/AdjacencyList.hpp     | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
index b96fa6e..dfcc785 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
@@ -217,13 +217,14 @@ static PyObject* AdjacencyListGraph_remove_vertex(AdjacencyListGraph* self, PyOb
     self->name_to_id.erase(name);
     self->id_to_name.erase(id);
 
-    Py_XDECREF(node_to_remove);
+    // Released at the end, since that can run code which uses the graph.
+    std::vector<PyObject*> released = {reinterpret_cast<PyObject*>(node_to_remove)};
 
     for (auto& node_pair : self->id_map) {
         AdjacencyListGraphNode* node = node_pair.second;
         auto adj_it = node->adjacent.find(name);
         if (adj_it != node->adjacent.end()) {
-            Py_XDECREF(adj_it->second);
+            released.push_back(adj_it->second);
             node->adjacent.erase(adj_it);
         }
     }
@@ -235,13 +236,17 @@ static PyObject* AdjacencyListGraph_remove_vertex(AdjacencyListGraph* self, PyOb
         std::string dst = key.substr(separator + 1);
 
         if (src == name || dst == name) {
-            Py_XDECREF(it->second);
+            released.push_back(reinterpret_cast<PyObject*>(it->second));
             it = self->edges.erase(it);
         } else {
             ++it;
         }
     }
 
+    for (PyObject* object : released) {
+        Py_XDECREF(object);
+    }
+
     Py_RETURN_NONE;
 }
 
@@ -280,19 +285,24 @@ static PyObject* AdjacencyListGraph_remove_edge(AdjacencyListGraph* self, PyObje
 
     AdjacencyListGraphNode* source_node = it_source->second;
 
+    PyObject* adjacent = NULL;
     auto adj_it = source_node->adjacent.find(target);
     if (adj_it != source_node->adjacent.end()) {
-        Py_XDECREF(adj_it->second);
+        adjacent = adj_it->second;
         source_node->adjacent.erase(adj_it);
     }
 
+    GraphEdge* edge = NULL;
     std::string key = make_edge_key(source, target);
     auto edge_it = self->edges.find(key);
     if (edge_it != self->edges.end()) {
-        Py_XDECREF(edge_it->second);
+        edge = edge_it->second;
         self->edges.erase(edge_it);
     }
 
+    Py_XDECREF(adjacent);
+    Py_XDECREF(edge);
+
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From e4142082ca3e470d410b40e3e3683db7341761a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:03 +0000
Subject: [PATCH 76/78] fix: sums of C++ binary indexed trees overflowed

---
 .../trees/_backend/cpp/BinaryIndexedTree.hpp  | 34 +++++++++++--------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
index 369ce5f..ad3d1d1 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
@@ -43,25 +43,31 @@ static PyObject* BinaryIndexedTree__update_impl(BinaryIndexedTree* self, long in
         return NULL;
     }
     long _index = index;
-    PyObject* new_value = PyLong_FromLong(value);
+    PyRef new_value(PyLong_FromLong(value));
     if (!new_value) {
         return NULL;
     }
-    if (PyList_GetItem(self->flag, index) == PyZero) {
-        Py_INCREF(PyOne);
-        PyList_SetItem(self->flag, index, PyOne);
-    }
-    else {
-        value = value - PyLong_AsLong(self->array->_data[index]);
+    // Sums of elements need not fit in a C integer.
+    bool is_first = PyList_GetItem(self->flag, index) == PyZero;
+    PyRef difference(PyNumber_Subtract(new_value.get(), is_first ? PyZero : self->array->_data[index]));
+    if (!difference) {
+        return NULL;
     }
     index += 1;
     while (index < (long) self->array->_size + 1) {
-        long curr = PyLong_AsLong(PyList_GetItem(self->tree, index));
-        PyList_SetItem(self->tree, index, PyLong_FromLong(curr + value));
+        PyObject* sum = PyNumber_Add(PyList_GetItem(self->tree, index), difference.get());
+        if (!sum) {
+            return NULL;
+        }
+        PyList_SetItem(self->tree, index, sum);
         index = index + (index & (-1*index));
     }
+    if (is_first) {
+        Py_INCREF(PyOne);
+        PyList_SetItem(self->flag, _index, PyOne);
+    }
     PyRef old_value(self->array->_data[_index]);
-    self->array->_data[_index] = new_value;
+    self->array->_data[_index] = new_value.release();
     Py_RETURN_NONE;
 }
 
@@ -130,13 +136,13 @@ static PyObject* BinaryIndexedTree__prefix_sum_impl(BinaryIndexedTree* self, lon
         return NULL;
     }
     index += 1;
-    long sum = 0;
-    while (index > 0) {
-        sum += PyLong_AsLong(PyList_GetItem(self->tree, index));
+    PyRef sum(PyLong_FromLong(0));
+    while (sum.get() && index > 0) {
+        sum.reset(PyNumber_Add(sum.get(), PyList_GetItem(self->tree, index)));
         index = index - (index & (-1*index));
     }
 
-    return PyLong_FromLong(sum);
+    return sum.release();
 }
 
 static PyObject* BinaryIndexedTree_get_prefix_sum(BinaryIndexedTree* self, PyObject *args) {
-- 
2.43.0


From ed000cb7cf48b5271bda0c5ada519194becda8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:03 +0000
Subject: [PATCH 77/78] fix: create array queues from empty lists

---
 pydatastructs/miscellaneous_data_structures/queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/miscellaneous_data_structures/queue.py b/pydatastructs/miscellaneous_data_structures/queue.py
index e05f42b..5305924 100644
--- a/pydatastructs/miscellaneous_data_structures/queue.py
+++ b/pydatastructs/miscellaneous_data_structures/queue.py
@@ -114,7 +114,7 @@ class ArrayQueue(Queue):
         if items is None:
             items = DynamicOneDimensionalArray(dtype, 0)
         else:
-            dtype = type(items[0])
+            dtype = type(items[0]) if len(items) > 0 else dtype
             items = DynamicOneDimensionalArray(dtype, items)
         obj = object.__new__(cls)
         obj.items, obj._front = items, -1
-- 
2.43.0


From 34374be2f3473f055b3c72a4d732a29a352dd070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:53:16 +0000
Subject: [PATCH 78/78] fix: build heaps from arrays with empty positions

---
 pydatastructs/trees/heaps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 5a55de4..7f672c0 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -94,7 +94,11 @@ class DHeap(Heap):
         elif _check_type(elements, (list,tuple)):
             elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
         elif _check_type(elements, Array):
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements._data)
+            # The empty positions of the array hold no elements.
+            elements = [elem for elem in elements._data if elem is not None]
+            if not all(_check_type(elem, TreeNode) for elem in elements):
+                raise TypeError('Expected an array of TreeNode')
+            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
         else:
             raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
         obj.heap = elements
-- 
2.43.0

