From 5164ed6c49b9bed9edf6c60861407dbe8c100fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 01/48] fix: traversals collect the visitor's result instead of
 calling the removed asyncio.coroutine

---
 .../rei/foundations/hierarchical_traversal_strategies.py  | 5 ++---
 .../rei/foundations/hypergraph_traversal_strategies.py    | 8 ++++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index 3d70877..4aad6f9 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -26,7 +26,7 @@ class HierarchicalTraversal(GraphVisitor, ABC):
         # Task list setup
         _task_list = []
         if self._filter_func(start) and not self._ignore_root:
-            _task_list.append(asyncio.coroutine(self._visitor_func(start)))
+            _task_list.append(self._visitor_func(start))
         return _fringe, _task_list
 
     async def _fill_visit_fringe(self, current_node, _fringe: asyncio.Queue, current_depth: int = 0):
@@ -39,8 +39,7 @@ class HierarchicalTraversal(GraphVisitor, ABC):
         if not _fringe.empty():
             _next, current_depth = await _fringe.get()
             await self._fill_visit_fringe(_next, _fringe, current_depth)
-            # Add coroutine (TODO: seek for another solution to create coroutines)
-            _task_list.append(asyncio.coroutine(self._visitor_func(_next)))
+            _task_list.append(self._visitor_func(_next))
             await self._traverse(_fringe, _task_list)
 
 
diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 07f1851..880b7ea 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -47,16 +47,16 @@ class HypergraphTraversal(GraphVisitor):
 
     def __fill_relations(self, weight, endpoint_id, edge_id, norm_weight, el, task_list: list):
         if weight[0] != 0.0:
-            task_list.append(asyncio.coroutine(
+            task_list.append(
                 self._visitor_func([(endpoint_id, x, edge_id, weight[0], norm_weight)
                                     for x in filter(lambda x: x is not endpoint_id,
-                                                    self.get_node_identification(el))])))
+                                                    self.get_node_identification(el))]))
 
         if weight[1] != 0.0:
-            task_list.append(asyncio.coroutine(
+            task_list.append(
                 self._visitor_func([(x, endpoint_id, edge_id, weight[1], norm_weight)
                                     for x in filter(lambda x: x is not endpoint_id,
-                                                    self.get_node_identification(el))])))
+                                                    self.get_node_identification(el))]))
 
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
-- 
2.43.0


From 124b75f1fe7316b20fe68d0517ed2af40c0175fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 02/48] fix: tensor representation allocates with float instead
 of the removed np.float

---
 framework_python/rei/tensor/tensor_representation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/tensor/tensor_representation.py b/framework_python/rei/tensor/tensor_representation.py
index 0de4167..c9f91ce 100644
--- a/framework_python/rei/tensor/tensor_representation.py
+++ b/framework_python/rei/tensor/tensor_representation.py
@@ -71,9 +71,9 @@ class NumpyTensorRepresentation(AbstractTensorRepresentation):
             if self._incidence_matrix_in is not None:
                 del self._incidence_matrix_in
             ho = self._current_homomorphism
-            self._weight_tensor = np.zeros(shape=(ho.cnt_edges, ho.cnt_node, ho.cnt_node), dtype=np.float)
-            self._incidence_matrix_out = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=np.float)
-            self._incidence_matrix_in = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=np.float)
+            self._weight_tensor = np.zeros(shape=(ho.cnt_edges, ho.cnt_node, ho.cnt_node), dtype=float)
+            self._incidence_matrix_out = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)
+            self._incidence_matrix_in = np.zeros(shape=(ho.cnt_edges, ho.cnt_node), dtype=float)
 
     def fill_tensors(self, i_e, i_n0, i_n1, i_w, val):
         self._weight_tensor[i_e, i_n1, i_n0] = i_w
-- 
2.43.0


From b72f06520b00ae135358f585ff86b87d2a5b1d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 03/48] fix: query engine awaits its own pending coroutines,
 repeatably and without leaking an event loop

---
 framework_python/rei/query/query_engine.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/framework_python/rei/query/query_engine.py b/framework_python/rei/query/query_engine.py
index ab51e61..7361577 100644
--- a/framework_python/rei/query/query_engine.py
+++ b/framework_python/rei/query/query_engine.py
@@ -27,6 +27,8 @@ class HierarchicalPrepositionQuery(GraphMonad):
                                                                             HypergraphEdge | SemanticValueNode) and traversal_statement(x))
 
     async def prefilter(self):
+        # Pending coroutines of a previous execution must not be awaited again
+        self.__prefilter = []
         await self.__bfs.execute(self.__start)
         return self.__prefilter
 
@@ -72,11 +74,10 @@ class HypergraphQueryEngine(HypergraphNode):
         return task_list
 
     async def execute(self):
-        __tasks = []
         prefilter = self.prefilter_queries()
         for i in prefilter:
-            __tasks.extend(await i)
-        await asyncio.wait(__tasks)
+            for task in await i:
+                await task
         res = []
         __task_list = await self.task_result_queries_lists()
         for t in __task_list:
@@ -85,12 +86,7 @@ class HypergraphQueryEngine(HypergraphNode):
 
     def execute_all_queries(self):
         loop = asyncio.new_event_loop()
-        asyncio.set_event_loop(loop)
-        tasks = []
-        for i in self.prefilter_queries():
-            tasks.extend(loop.run_until_complete(i))
-        loop.run_until_complete(asyncio.wait(tasks))
-        results = []
-        for i in self.__queries.values():
-            results.extend(loop.run_until_complete(i.get_list_results()))
-        return results
\ No newline at end of file
+        try:
+            return loop.run_until_complete(self.execute())
+        finally:
+            loop.close()
-- 
2.43.0


From eb46e13e99f2a21e2bedf7e4613acaeff17c59f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 04/48] fix: traversals use a fresh fringe instead of one
 shared default queue

---
 .../rei/foundations/hierarchical_traversal_strategies.py   | 7 +++----
 .../rei/foundations/hypergraph_traversal_strategies.py     | 6 +++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index 4aad6f9..b7982a6 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -2,7 +2,6 @@ import asyncio
 import math
 
 import typing
-import copy
 from abc import ABC
 
 from rei.foundations.graph_monad import GraphVisitor
@@ -19,10 +18,10 @@ class HierarchicalTraversal(GraphVisitor, ABC):
         self._ignore_root = ignore_root
 
     async def _setup_visit_algorithm(self, start: typing.Any,
-                                     fringe: asyncio.Queue = asyncio.Queue()) \
+                                     fringe: asyncio.Queue | None = None) \
             -> tuple[asyncio.Queue | asyncio.LifoQueue, list]:
-        # Fringe setup
-        _fringe = copy.copy(fringe)
+        # Fringe setup (each traversal owns its fringe)
+        _fringe = fringe if fringe is not None else asyncio.Queue()
         # Task list setup
         _task_list = []
         if self._filter_func(start) and not self._ignore_root:
diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 880b7ea..639b636 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -1,5 +1,4 @@
 import asyncio
-import copy
 import math
 import typing
 
@@ -100,8 +99,9 @@ class HypergraphTraversal(GraphVisitor):
                         _fringe.task_done()
             await self._traverse(_fringe, _task_list)
 
-    async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue = asyncio.Queue()):
-        _fringe = copy.copy(fringe)
+    async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue | None = None):
+        # Each traversal owns its fringe
+        _fringe = fringe if fringe is not None else asyncio.Queue()
         await _fringe.put((start, 0))
         _fringe.task_done()
         # Task list
-- 
2.43.0


From 64f72ab918c27a80d83d57c5f8f1bd666659011a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 05/48] fix: traversals, searches and 2-factorization iterate
 instead of recursing once per element

---
 .../rei/foundations/hierarchical_traversal_strategies.py    | 3 +--
 .../rei/foundations/hypergraph_traversal_strategies.py      | 3 +--
 framework_python/rei/foundations/query/search_elements.py   | 6 ++----
 framework_python/rei/hypergraph/factorization_operations.py | 5 +----
 4 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index b7982a6..5412921 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -35,11 +35,10 @@ class HierarchicalTraversal(GraphVisitor, ABC):
                 _fringe.task_done()
 
     async def _traverse(self, _fringe, _task_list: list):
-        if not _fringe.empty():
+        while not _fringe.empty():
             _next, current_depth = await _fringe.get()
             await self._fill_visit_fringe(_next, _fringe, current_depth)
             _task_list.append(self._visitor_func(_next))
-            await self._traverse(_fringe, _task_list)
 
 
 class BreadthFirstHierarchicalTraversal(HierarchicalTraversal):
diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 639b636..cb472ae 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -59,7 +59,7 @@ class HypergraphTraversal(GraphVisitor):
 
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
-        if not _fringe.empty():
+        while not _fringe.empty():
             _next, __current_depth = await _fringe.get()
             match _next:
                 case HypergraphNode():
@@ -97,7 +97,6 @@ class HypergraphTraversal(GraphVisitor):
                     if __current_depth + 1 < self.max_depth:
                         await _fringe.put((_next.endpoint, __current_depth + 1))
                         _fringe.task_done()
-            await self._traverse(_fringe, _task_list)
 
     async def _setup(self, start: HypergraphElement, fringe: asyncio.Queue | None = None):
         # Each traversal owns its fringe
diff --git a/framework_python/rei/foundations/query/search_elements.py b/framework_python/rei/foundations/query/search_elements.py
index 6b07a85..888defe 100644
--- a/framework_python/rei/foundations/query/search_elements.py
+++ b/framework_python/rei/foundations/query/search_elements.py
@@ -54,7 +54,7 @@ class QuerySearchSubElement(GraphQuery):
         super().__init__()
 
     async def _traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
             if __next.qualified_name == self._query_def:
                 self._element_cache[__next.qualified_name] = __next
@@ -63,7 +63,6 @@ class QuerySearchSubElement(GraphQuery):
             for n in __next.get_subelements(lambda x: True):
                 await fringe.put(n)
                 fringe.task_done()
-            await self._traverse(fringe)
 
 
 class QuerySearchElement(GraphQuery):
@@ -73,7 +72,7 @@ class QuerySearchElement(GraphQuery):
         self.visited_set = set()
 
     async def _traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
             self.visited_set.add(__next.uuid)
             if __next.qualified_name == self._query_def:
@@ -87,7 +86,6 @@ class QuerySearchElement(GraphQuery):
             if __next.parent is not None:
                 await fringe.put(__next.parent)
                 fringe.task_done()
-            await self._traverse(fringe)
 
     async def execute(self, start: HypergraphNode) -> list[asyncio.Future]:
         self.visited_set = set()
diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 4a5bcd9..16163bd 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -13,7 +13,7 @@ class Factorization2Operation(GraphMonad):
         self.__relation_list = []
 
     async def __traverse(self, fringe: asyncio.Queue):
-        if not fringe.empty():
+        while not fringe.empty():
             __next = await fringe.get()
             match __next:
                 case HypergraphNode():
@@ -30,9 +30,6 @@ class Factorization2Operation(GraphMonad):
                     for i in o_e:
                         await fringe.put(i.endpoint)
                         fringe.task_done()
-            await self.__traverse(fringe)
-        else:
-            return
 
     async def execute(self, start) -> list[asyncio.Future]:
         self.__relation_list = []
-- 
2.43.0


From d8475f0ddb298ff62898e6a3a8a0c67ae6ceea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 06/48] fix: a search query does not answer from a stale or
 out-of-scope cache entry

---
 .../rei/foundations/query/search_elements.py  | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/foundations/query/search_elements.py b/framework_python/rei/foundations/query/search_elements.py
index 888defe..f6a943e 100644
--- a/framework_python/rei/foundations/query/search_elements.py
+++ b/framework_python/rei/foundations/query/search_elements.py
@@ -36,10 +36,21 @@ class GraphQuery(GraphMonad, ABC):
     async def _traverse(self, fringe: asyncio.Queue):
         raise NotImplementedError
 
+    @abc.abstractmethod
+    def _in_scope(self, element, start) -> bool:
+        raise NotImplementedError
+
+    @staticmethod
+    def _ancestors(element):
+        while element is not None:
+            yield element
+            element = element.parent
+
     async def execute(self, start: HypergraphNode) -> list[asyncio.Future]:
         self._result = []
-        if self.query_def in self._element_cache:
-            self._result = [self._element_cache[self.query_def]]
+        cached = self._element_cache.get(self.query_def)
+        if cached is not None and cached.qualified_name == self.query_def and self._in_scope(cached, start):
+            self._result = [cached]
             return []
         __fringe, _task_list = self._setup_query()
         await __fringe.put(start)
@@ -53,6 +64,9 @@ class QuerySearchSubElement(GraphQuery):
     def __init__(self):
         super().__init__()
 
+    def _in_scope(self, element, start) -> bool:
+        return any(x is start for x in self._ancestors(element))
+
     async def _traverse(self, fringe: asyncio.Queue):
         while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
@@ -71,6 +85,9 @@ class QuerySearchElement(GraphQuery):
         super().__init__()
         self.visited_set = set()
 
+    def _in_scope(self, element, start) -> bool:
+        return list(self._ancestors(element))[-1] is list(self._ancestors(start))[-1]
+
     async def _traverse(self, fringe: asyncio.Queue):
         while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
-- 
2.43.0


From 9c45c5b10051903bcd30002bad98875195df9ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 07/48] fix: hypergraph traversal and 2-factorization process
 each element once, also on cycles

---
 .../rei/foundations/hypergraph_traversal_strategies.py     | 7 +++++--
 .../rei/hypergraph/factorization_operations.py             | 5 +++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index cb472ae..6f781e2 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -38,8 +38,6 @@ class HypergraphTraversal(GraphVisitor):
             _fringe.task_done()
 
     async def __fill_node(self, el: HypergraphNode, _fringe, current_depth: int):
-        for v in el.sub_ports:
-            print(v)
         for v in el.sub_edges:
             await _fringe.put((v, current_depth))
             _fringe.task_done()
@@ -59,8 +57,13 @@ class HypergraphTraversal(GraphVisitor):
 
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
+        # Elements can be reached on several paths (and on cycles), process each of them once
+        __visited = set()
         while not _fringe.empty():
             _next, __current_depth = await _fringe.get()
+            if id(_next) in __visited:
+                continue
+            __visited.add(id(_next))
             match _next:
                 case HypergraphNode():
                     _next: HypergraphNode
diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index 16163bd..fc3d238 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -13,8 +13,13 @@ class Factorization2Operation(GraphMonad):
         self.__relation_list = []
 
     async def __traverse(self, fringe: asyncio.Queue):
+        # Elements can be reached on several paths (and on cycles), process each of them once
+        __visited = set()
         while not fringe.empty():
             __next = await fringe.get()
+            if id(__next) in __visited:
+                continue
+            __visited.add(id(__next))
             match __next:
                 case HypergraphNode():
                     __next: HypergraphNode
-- 
2.43.0


From fa19a0260c943af168ffc9537ffd18cb7ceacec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 08/48] fix: hypergraph traversal pairs incoming with outgoing
 endpoints of a directed hyperedge

---
 .../foundations/hypergraph_traversal_strategies.py  | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/framework_python/rei/foundations/hypergraph_traversal_strategies.py b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
index 6f781e2..06e776c 100644
--- a/framework_python/rei/foundations/hypergraph_traversal_strategies.py
+++ b/framework_python/rei/foundations/hypergraph_traversal_strategies.py
@@ -22,10 +22,10 @@ class HypergraphTraversal(GraphVisitor):
         self._index_homomorphism = homomorphism
         self.max_depth = depth
 
-    def get_node_identification(self, el):
+    def get_node_identification(self, relations):
         if self._index_homomorphism is None:
-            return map(lambda x: x.uuid, el.parent.induced_subset)
-        return map(lambda x: self._index_homomorphism.node(x.uuid), el.parent.induced_subset)
+            return map(lambda x: x.endpoint.uuid, relations)
+        return map(lambda x: self._index_homomorphism.node(x.endpoint.uuid), relations)
 
     def get_edge_identification(self, el: HypergraphEdge):
         if self._index_homomorphism is None:
@@ -43,17 +43,20 @@ class HypergraphTraversal(GraphVisitor):
             _fringe.task_done()
 
     def __fill_relations(self, weight, endpoint_id, edge_id, norm_weight, el, task_list: list):
+        # An incoming relation pairs with the outgoing ones of the edge and vice versa
         if weight[0] != 0.0:
             task_list.append(
                 self._visitor_func([(endpoint_id, x, edge_id, weight[0], norm_weight)
                                     for x in filter(lambda x: x is not endpoint_id,
-                                                    self.get_node_identification(el))]))
+                                                    self.get_node_identification(
+                                                        el.parent.get_outgoing_relations()))]))
 
         if weight[1] != 0.0:
             task_list.append(
                 self._visitor_func([(x, endpoint_id, edge_id, weight[1], norm_weight)
                                     for x in filter(lambda x: x is not endpoint_id,
-                                                    self.get_node_identification(el))]))
+                                                    self.get_node_identification(
+                                                        el.parent.get_incoming_relations()))]))
 
 
     async def _traverse(self, _fringe: asyncio.Queue, _task_list: list):
-- 
2.43.0


From b61abc8ce18fee57bf5227848c6c735b2602a383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 09/48] fix: repeated coordinate-format export does not
 accumulate the entries of previous exports

---
 .../rei/hypergraph/encoding/graph_tensor_icon.py             | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
index 8a05bfb..c8c31ba 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
@@ -41,6 +41,10 @@ class CoordinateObjectTransformer(GraphMonad):
     async def execute(self, start: HypergraphNode | None = None) -> list[asyncio.Future]:
         if start is None:
             start = self._context
+        # Drop the entries of a previous execution
+        self._msg_value_tensor = []
+        self._msg_incidence_out = []
+        self._msg_incidence_in = []
         q = queue.Queue()
         tr = HypergraphTraversal(
             lambda x: q.put(x), lambda x: True, SumNorm(), self._index_homomorphism, self.repr_depth)
@@ -71,6 +75,7 @@ class CoordinateObjectTransformer(GraphMonad):
         return [self.__msg_edge_tuple(i) for i in list(self._context.sub_edges)]
 
     def msg_relation_index_list(self):
+        self._msg_relations = []
         for el in map(lambda x: list(x.sub_relations), self._context.sub_edges):
             for rel in el:
                 rel: HypergraphRelation
-- 
2.43.0


From 7631fe4836c184ace12e281e0727116d0f3e443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 10/48] fix: CBOR icon encodes the context it was given as the
 root of the message

---
 framework_python/rei/hypergraph/encoding/graph_tensor_icon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
index c8c31ba..e90ff5d 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon.py
@@ -29,6 +29,7 @@ class CoordinateObjectTransformer(GraphMonad):
         self._index_homomorphism = IndexHomomorphismGraphTensor(True)
 
     async def reset(self, context: HypergraphNode):
+        self._context = context
         self._index_homomorphism = IndexHomomorphismGraphTensor(False, depth=math.inf)
         return await self._index_homomorphism.execute(context)
 
@@ -55,7 +56,8 @@ class CoordinateObjectTransformer(GraphMonad):
                 self.fill_tensors(i_e, i_n1, i_n0, i_w, val)
 
     def __msg_node_tuple(self, el: HypergraphNode):
-        if el.parent is None:
+        # The encoded context is the root of the message, even if it is part of a larger graph
+        if el.parent is None or el is self._context:
             return el.uuid, el.id_name, self._index_homomorphism.node(el.uuid), 0, el.qualified_name.encode('utf-8')
         return el.uuid, el.id_name, self._index_homomorphism.node(el.uuid), el.parent.uuid, el.qualified_name.encode('utf-8')
 
-- 
2.43.0


From 65add8dcdc5c017d50f77ea3b19d01d2ecc2f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 11/48] fix: CBOR decoding keeps the direction of relations and
 the value nodes' progenitor name

---
 .../rei/hypergraph/encoding/graph_tensor_icon_cbor.py       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
index 13532c5..c53ca89 100644
--- a/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
+++ b/framework_python/rei/hypergraph/encoding/graph_tensor_icon_cbor.py
@@ -2,6 +2,7 @@
 from rei.factories.foundation_factory import HypergraphFactory
 from rei.foundations.clock import MetaClock
 from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge, HypergraphRelation
+from rei.hypergraph.common_definitions import EnumRelationDirection
 from rei.hypergraph.encoding.graph_tensor_icon import CoordinateObjectTransformer
 
 import cbor2
@@ -70,12 +71,13 @@ class GraphTensorCbor(object):
             edges.append((e[0], e[2]))
         # Relation
         for rel in frag[2]:
-            _el = HypergraphRelation(rel[0], rel[1], rel[2], _elements[rel[4]], None, parent=_elements[rel[5]])
+            _el = HypergraphRelation(rel[0], rel[1], rel[2], _elements[rel[4]], None, parent=_elements[rel[5]],
+                                     direction=EnumRelationDirection(rel[3]))
             _elements[rel[5]].add_element(_el)
         # Value nodes
         values = []
         for v in frag[3]:
-            _el = ValueNode(v[0], v[1], v[4], v[5])
+            _el = ValueNode(v[0], v[1], v[4].decode('utf-8'), v[5])
             values.append((v[0], v[2]))
             _elements[v[3]].add_element(_el)
         # Value tensor
-- 
2.43.0


From 4942a64a36d555d46a89cb3c0cb9b5086b32d153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 12/48] fix: inserting an ancestor into its own descendant is
 rejected instead of creating a cycle

---
 framework_python/rei/foundations/conceptual_item.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index fe2d838..3162013 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -84,9 +84,12 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
         yield from filter(filterfunc, self._sub_elements.values())
 
     def add_element(self, element):
-        # Forbid hierarchy recursion
-        if element is self:
-            raise ErrorRecursiveHierarchy
+        # Forbid hierarchy recursion (neither this element, nor any of its ancestors can be contained)
+        ancestor = self
+        while ancestor is not None:
+            if ancestor is element:
+                raise ErrorRecursiveHierarchy
+            ancestor = ancestor.parent
         # Add as unique element
         if element.uuid not in self._sub_elements:
             self._sub_elements[element.uuid] = element
-- 
2.43.0


From b94e9236946d559af6f99cc725cc5469829fef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 13/48] fix: a moved element leaves its old container before
 the new one assigns its context id

---
 framework_python/rei/foundations/conceptual_item.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 3162013..d8c502d 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -91,10 +91,13 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 raise ErrorRecursiveHierarchy
             ancestor = ancestor.parent
         # Add as unique element
-        if element.uuid not in self._sub_elements:
-            self._sub_elements[element.uuid] = element
-        else:
+        if element.uuid in self._sub_elements:
             raise ErrorDuplicateElement
+        # Check whether this element has been assigned to somewhere else
+        if element.parent is not None:
+            for e in element.parent.remove_element(uuid=element.uuid):            # Update all sub elements
+                e.update()
+        self._sub_elements[element.uuid] = element
         # Set the parent of the element
         if element.parent is not self:
             # Index by names (multiple names can exist, add them as a list)
@@ -103,10 +106,6 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
             self._index_elements_by_name[element.id_name][element.uuid] = element
             # Set the CID of the added element
             element.cid = self._cnt_subelements_historical
-            # Check whether this element has been assigned to somewhere else
-            if element.parent is not None:
-                for e in element.parent.remove_element(uuid=element.uuid):            # Update all sub elements
-                    e.update()
             element.parent = self
             element._depth = self._depth + 1
             # Subelement count increment
-- 
2.43.0


From ca9d57ee17aa5993c5c98a2e0dc2bda2cea8a49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 14/48] fix: element removal keeps the name index and the
 element set in step

---
 framework_python/rei/foundations/conceptual_item.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index d8c502d..904d99b 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -118,8 +118,9 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
         if len(id_name) > 0:
             if uuid is not None:
-                el = self._sub_elements.pop(uuid)
+                # An element not having this name is not to be removed
                 self._index_elements_by_name[id_name].pop(uuid)
+                el = self._sub_elements.pop(uuid)
                 # Invalidate parent
                 el.parent = None
                 el.update()
@@ -129,9 +130,9 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 yield el
             else:
                 __tmp = [x for x in self._index_elements_by_name[id_name].values()]
-                # Reset indices
-                self._index_elements_by_name[id_name] = {}
                 for v in __tmp:
+                    # Elements are removed as the generator advances, keep the indices in step
+                    self._index_elements_by_name[id_name].pop(v.uuid)
                     el = self._sub_elements.pop(v.uuid)
                     # Invalidate each element parent
                     el.parent = None
-- 
2.43.0


From 2ffa76f3aabe7fe33f49a13da6bcea1716489d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 15/48] fix: depth and qualified names of a whole subtree
 follow removal and relocation

---
 framework_python/rei/foundations/conceptual_item.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 904d99b..a9441b6 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -107,7 +107,6 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
             # Set the CID of the added element
             element.cid = self._cnt_subelements_historical
             element.parent = self
-            element._depth = self._depth + 1
             # Subelement count increment
             self._cnt_subelements += 1
             # All-ever created subelement count
@@ -123,7 +122,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 el = self._sub_elements.pop(uuid)
                 # Invalidate parent
                 el.parent = None
-                el.update()
+                self.__update_element(el)
                 # Decrement element count
                 self._cnt_subelements -= 1
                 # Yield element
@@ -137,7 +136,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                     # Invalidate each element parent
                     el.parent = None
                     # Update timestamp etc.
-                    el.update()
+                    self.__update_element(el)
                     # Decrement by each element
                     self._cnt_subelements -= 1
                     # Yield element
@@ -149,7 +148,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
                 # Invalidate element parent
                 el.parent = None
                 # Update tiemstamp etc.
-                el.update()
+                self.__update_element(el)
                 # Decrement element
                 self._cnt_subelements -= 1
                 # Yield element
@@ -163,6 +162,7 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
         __fringe.put(element)
         while not __fringe.empty():
             __next: HierarchicalElement = __fringe.get()
+            __next._depth = __next.parent.depth + 1 if __next.parent is not None else 0
             __next.update()
             for e in __next.get_subelements(lambda x: True):
                 __fringe.put(e)
-- 
2.43.0


From 965fa27f166a35d0a2033df41ddd7b797c908acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 16/48] fix: qualified names of hierarchies deeper than the
 recursion limit

---
 framework_python/rei/foundations/conceptual_item.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index a9441b6..95b5cc8 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -61,9 +61,11 @@ class HierarchicalElement(IdentifiableItem, InterfaceSetOperations, ABC):
         self._parent = arg
 
     def update_qualified_name(self):
-        yield self._id_name
-        if self._parent is not None:
-            yield from self._parent.update_qualified_name()
+        # Iterate, as the hierarchy can be deeper than the recursion limit
+        element = self
+        while element is not None:
+            yield element.id_name
+            element = element.parent
 
     def update(self):
         self._qualified_name = '/'.join(list(self.update_qualified_name())[::-1])
-- 
2.43.0


From 8abbd1e71c8267c5a794a83daf1bcf747cf4f85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 17/48] fix: path lookup yields nothing for a missing or
 unsearchable first token instead of failing

---
 framework_python/rei/foundations/conceptual_item.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 95b5cc8..8f5bbf7 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -230,9 +230,10 @@ class ConceptualItem(HierarchicalElement, InterfaceSetMultipleElementsOperation,
             else:
                 yield from []
         else:
-            # Iterate all possible named elements
-            for v in self._index_elements_by_name[tokens[0]].values():
-                yield from v.get_element_by_id_name('/'.join(tokens[1:]))
+            # Iterate all possible named elements (not all of them can be searched by name)
+            for v in list(self._index_elements_by_name.get(tokens[0], {}).values()):
+                if isinstance(v, InterfaceNamedSubelements):
+                    yield from v.get_element_by_id_name('/'.join(tokens[1:]))
 
     def update(self):
         self._update_timestamp()
-- 
2.43.0


From ecda1d99257e2bca8db6e12af52481517fee7862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 18/48] fix: bulk addition and removal perform the operation
 for each element

---
 framework_python/rei/foundations/conceptual_item.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 8f5bbf7..66c5bd3 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -215,10 +215,11 @@ class ConceptualItem(HierarchicalElement, InterfaceSetMultipleElementsOperation,
 
 
     async def add_elements(self, elements: typing.Iterable[typing.Any]) -> asyncio.Future:
-        return asyncio.gather(self.add_element(x) for x in elements)
+        for x in elements:
+            self.add_element(x)
 
     async def remove_elements(self, elements: typing.Iterable[tuple[str, bytes]]) -> asyncio.Future:
-        return asyncio.gather(*[self.remove_element(e[0], e[1]) for e in elements])
+        return [x for e in elements for x in self.remove_element(e[0], e[1])]
 
     def get_element_by_id_name(self, id_name: str) -> typing.Generator:
         tokens = id_name.split('/')
-- 
2.43.0


From e49b3baf2142c285b018d03d053e86c76da1afab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:28 +0000
Subject: [PATCH 19/48] fix: disconnecting an element removes its port

---
 framework_python/rei/hypergraph/base_elements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 9b3614b..2354781 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -51,7 +51,9 @@ class HypergraphElement(ConceptualItem):
 
     def disconnect(self, el: HierarchicalElement):
         p = self._ports.pop(el.uuid)
-        self.remove_element(id_name=p.id_name, uuid=p.uuid)
+        # Removal is lazy, it has to be consumed
+        for _ in self.remove_element(id_name=p.id_name, uuid=p.uuid):
+            pass
 
     @property
     def sub_ports(self):
-- 
2.43.0


From 37037927bbc2b5b24943e1a689d131ceee78eff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 20/48] fix: elements can be removed from hyperedges and
 relations

---
 framework_python/rei/hypergraph/base_elements.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 2354781..b6c3375 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -117,11 +117,6 @@ class HypergraphRelation(HierarchicalElement):
             # Set port
             element.connect(self)
 
-    def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
-        el = self._sub_elements.pop(self.endpoint.uuid)
-        self._endpoint = None
-        yield el
-
 
 class HypergraphEdge(HypergraphElement):
     """
@@ -154,7 +149,10 @@ class HypergraphEdge(HypergraphElement):
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
         _el = super().remove_element(id_name, uuid)
         for v in _el:
-            yield from self._sub_relations.pop(v.cid)
+            match v:
+                case HypergraphRelation():
+                    self._sub_relations.pop(v.cid)
+            yield v
 
     @property
     def sub_relations(self):
-- 
2.43.0


From 1fc25979a11e8435eaf0e9679f79bad1f6b2099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 21/48] fix: relations and ports of same-named elements in
 different containers have distinct identities

---
 framework_python/rei/hypergraph/base_elements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index b6c3375..63c51bb 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -34,13 +34,14 @@ class HypergraphElement(ConceptualItem):
     def __init__(self, id_name: str, uuid: bytes, qualified_name: str, clock: MetaClock,
                  parent: HierarchicalElement = None):
         super().__init__(id_name, uuid, qualified_name, clock, parent)
-        self._id_generation = Sha3UniqueIdentifierGenerator(id_name, HypergraphElement.identification_generation)
+        # Names are not unique among containers, identify connections by the identity of their ends
+        self._id_generation = Sha3UniqueIdentifierGenerator(uuid.hex(), HypergraphElement.identification_generation)
         # Ports to deduce associated relations
         self._ports: dict[bytes, HypergraphPort] = {}
 
     @staticmethod
     def identification_generation(x: str, y: IdentifiableItem):
-        return f"{x}/{y.id_name}"
+        return f"{x}/{y.uuid.hex()}"
 
     def connect(self, el: HierarchicalElement):
         port_name = '.'.join([self.id_name, "port", el.id_name])
-- 
2.43.0


From 8fc26e83ac3295485dc4fb288cebd2760f82e291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 22/48] fix: relations of a hyperedge and ports of their
 endpoints are created and removed together

---
 .../rei/hypergraph/base_elements.py           | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/hypergraph/base_elements.py b/framework_python/rei/hypergraph/base_elements.py
index 63c51bb..cc0fa7d 100644
--- a/framework_python/rei/hypergraph/base_elements.py
+++ b/framework_python/rei/hypergraph/base_elements.py
@@ -2,6 +2,7 @@ import typing
 
 from rei.foundations.abstract_items import IdentifiableItem
 from rei.foundations.clock import MetaClock
+from rei.foundations.common_errors import ErrorDuplicateElement
 from rei.foundations.conceptual_item import ConceptualItem, HierarchicalElement
 from rei.foundations.identification.identity_generator import Sha3UniqueIdentifierGenerator
 from rei.hypergraph.common_definitions import EnumRelationDirection
@@ -47,8 +48,11 @@ class HypergraphElement(ConceptualItem):
         port_name = '.'.join([self.id_name, "port", el.id_name])
         p = HypergraphPort(self._id_generation.generate_uid(el), port_name,
                            port_name, el, self)
-        self._ports[el.uuid] = p
         self.add_element(p)
+        self._ports[el.uuid] = p
+
+    def is_connected(self, el: HierarchicalElement) -> bool:
+        return el.uuid in self._ports and self._ports[el.uuid].endpoint is el
 
     def disconnect(self, el: HierarchicalElement):
         p = self._ports.pop(el.uuid)
@@ -136,16 +140,23 @@ class HypergraphEdge(HypergraphElement):
         rel = HypergraphRelation(self._id_generation.generate_uid(endpoint), id_name,
                                  '/'.join([self.id_name, id_name]), endpoint, weight, direction=direction,
                                  semantic_value_node=semantic_value_node)
-        endpoint.connect(rel)
+        self.add_element(rel)
         if semantic_value_node is not None:
             rel.add_element(semantic_value_node)
-        self.add_element(rel)
 
     def add_element(self, element: HierarchicalElement):
+        match element:
+            case HypergraphRelation():
+                # Another relation has the port of this one
+                if element.uuid in element.endpoint._ports and not element.endpoint.is_connected(element):
+                    raise ErrorDuplicateElement
         super().add_element(element)
         match element:
             case HypergraphRelation():
                 self._sub_relations[element.cid] = element
+                # Each relation of an edge has a port on its endpoint
+                if not element.endpoint.is_connected(element):
+                    element.endpoint.connect(element)
 
     def remove_element(self, id_name: str = "", uuid: bytes = None) -> typing.Generator:
         _el = super().remove_element(id_name, uuid)
@@ -153,6 +164,8 @@ class HypergraphEdge(HypergraphElement):
             match v:
                 case HypergraphRelation():
                     self._sub_relations.pop(v.cid)
+                    if v.endpoint.is_connected(v):
+                        v.endpoint.disconnect(v)
             yield v
 
     @property
-- 
2.43.0


From 9f919c449d6f37ab7ec03959bd57207554b16628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 23/48] fix: the stamped qualified name is a name, not a tuple

---
 framework_python/rei/factories/abstract_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/factories/abstract_factory.py b/framework_python/rei/factories/abstract_factory.py
index 84bade4..f1b668a 100644
--- a/framework_python/rei/factories/abstract_factory.py
+++ b/framework_python/rei/factories/abstract_factory.py
@@ -20,4 +20,4 @@ class AbstractElementFactory():
         return f"{name}.{self._clock.get_time_ns()}"
 
     def get_stamped_qualified_name(self, id_name: str, parent: HierarchicalElement):
-        return '/'.join([parent.qualified_name, id_name]) + f".{self._clock.get_time_ns()}",
+        return '/'.join([parent.qualified_name, id_name]) + f".{self._clock.get_time_ns()}"
-- 
2.43.0


From 31b290cafa83cba9a352021a0fd918dbc85d2e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 24/48] fix: the outgoing side of a 2-factor edge gets the
 second direction

---
 framework_python/rei/factories/foundation_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/factories/foundation_factory.py b/framework_python/rei/factories/foundation_factory.py
index 0f34937..8ed4b4b 100644
--- a/framework_python/rei/factories/foundation_factory.py
+++ b/framework_python/rei/factories/foundation_factory.py
@@ -67,7 +67,7 @@ class HypergraphFactory(AbstractElementFactory):
         for n,v in node_in_values:
             he.unary_connect(n, v, direction[0])
         for n,v in node_out_values:
-            he.unary_connect(n, v, direction[0])
+            he.unary_connect(n, v, direction[1])
         return he
 
     def connect_dir_edges(self, container: HypergraphNode, edge_name: str, in_dir_nodes: list[HypergraphNode],
-- 
2.43.0


From ff903a3e35801aa8edb178282abcc72ba2cc48cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 25/48] fix: a hyperedge with an unfitting number of values is
 rejected before it is created

---
 framework_python/rei/factories/foundation_factory.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/factories/foundation_factory.py b/framework_python/rei/factories/foundation_factory.py
index 8ed4b4b..fa94509 100644
--- a/framework_python/rei/factories/foundation_factory.py
+++ b/framework_python/rei/factories/foundation_factory.py
@@ -38,14 +38,14 @@ class HypergraphFactory(AbstractElementFactory):
     def connect_nodes(self, container: HypergraphNode, edge_name: str, nodes: list[HypergraphNode],
                       direction: EnumRelationDirection = EnumRelationDirection.BIDIRECTIONAL,
                       values: list[ValueNode] | None = None):
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
-        he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         if values is None:
             node_values = zip(nodes, len(nodes)*[None])
         else:
             if len(values) != len(nodes):
                 raise ErrorInsufficientValues
             node_values = zip(nodes, values)
+        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         for n,v in node_values:
             he.unary_connect(n, v, direction)
         return he
@@ -54,8 +54,6 @@ class HypergraphFactory(AbstractElementFactory):
             self, container: HypergraphNode, edge_name: str, in_dir_nodes: list[HypergraphNode],
             out_dir_nodes: list[HypergraphNode], direction: tuple[EnumRelationDirection, EnumRelationDirection],
             values: list[ValueNode] | None = None):
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
-        he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         if values is None:
             node_in_values = zip(in_dir_nodes, (len(in_dir_nodes))*[None])
             node_out_values = zip(out_dir_nodes, (len(out_dir_nodes))*[None])
@@ -64,6 +62,8 @@ class HypergraphFactory(AbstractElementFactory):
                 raise ErrorInsufficientValues
             node_in_values = zip(in_dir_nodes, values[:len(in_dir_nodes)])
             node_out_values = zip(out_dir_nodes, values[len(in_dir_nodes):])
+        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         for n,v in node_in_values:
             he.unary_connect(n, v, direction[0])
         for n,v in node_out_values:
-- 
2.43.0


From 353427c3e4dc4afcfd5c6c80254ef278da88b462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:39 +0000
Subject: [PATCH 26/48] fix: identities of hyperedges, values and semantic
 elements depend on their container

---
 framework_python/rei/factories/abstract_factory.py     |  6 ++++++
 framework_python/rei/factories/foundation_factory.py   | 10 +++++-----
 .../semantics/cognitive_entity_semantic_factory.py     |  2 +-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/framework_python/rei/factories/abstract_factory.py b/framework_python/rei/factories/abstract_factory.py
index f1b668a..367c8c0 100644
--- a/framework_python/rei/factories/abstract_factory.py
+++ b/framework_python/rei/factories/abstract_factory.py
@@ -21,3 +21,9 @@ class AbstractElementFactory():
 
     def get_stamped_qualified_name(self, id_name: str, parent: HierarchicalElement):
         return '/'.join([parent.qualified_name, id_name]) + f".{self._clock.get_time_ns()}"
+
+    def get_scoped_name(self, element_type: str, id_name: str, parent: HierarchicalElement | None) -> str:
+        # Different types of elements can have the same name, even in the same container
+        if parent is None:
+            return f"{element_type}:{id_name}"
+        return f"{element_type}:{parent.qualified_name}/{id_name}"
diff --git a/framework_python/rei/factories/foundation_factory.py b/framework_python/rei/factories/foundation_factory.py
index fa94509..6fa9dc8 100644
--- a/framework_python/rei/factories/foundation_factory.py
+++ b/framework_python/rei/factories/foundation_factory.py
@@ -29,7 +29,7 @@ class HypergraphFactory(AbstractElementFactory):
     #
 
     def create_hyperedge(self, parent: HypergraphNode, edge_name: str):
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        uuid: bytes = self.unique_identifier.generate_uid(self.get_scoped_name("edge", edge_name, parent))
         he = HypergraphEdge(edge_name, uuid,
                             self.get_stamped_qualified_name(edge_name, parent),
                             parent.clock, parent)
@@ -44,7 +44,7 @@ class HypergraphFactory(AbstractElementFactory):
             if len(values) != len(nodes):
                 raise ErrorInsufficientValues
             node_values = zip(nodes, values)
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        uuid: bytes = self.unique_identifier.generate_uid(self.get_scoped_name("edge", edge_name, container))
         he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         for n,v in node_values:
             he.unary_connect(n, v, direction)
@@ -62,7 +62,7 @@ class HypergraphFactory(AbstractElementFactory):
                 raise ErrorInsufficientValues
             node_in_values = zip(in_dir_nodes, values[:len(in_dir_nodes)])
             node_out_values = zip(out_dir_nodes, values[len(in_dir_nodes):])
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        uuid: bytes = self.unique_identifier.generate_uid(self.get_scoped_name("edge", edge_name, container))
         he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         for n,v in node_in_values:
             he.unary_connect(n, v, direction[0])
@@ -85,7 +85,7 @@ class HypergraphFactory(AbstractElementFactory):
         :param nodes: endpoint, direction, value node, semantiv calue node
         :return:
         """
-        uuid: bytes = self.unique_identifier.generate_uid(edge_name)
+        uuid: bytes = self.unique_identifier.generate_uid(self.get_scoped_name("edge", edge_name, container))
         he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         for n, dir, v, sv in nodes:
             he.unary_connect(n, v, dir, sv)
@@ -96,7 +96,7 @@ class HypergraphFactory(AbstractElementFactory):
         return he
 
     def create_value(self, parent: HypergraphNode | None, value_name: str, values: list[typing.Any] = None):
-        uuid: bytes = self.unique_identifier.generate_uid(value_name)
+        uuid: bytes = self.unique_identifier.generate_uid(self.get_scoped_name("value", value_name, parent))
         if parent is not None:
             val = ValueNode(uuid, value_name, self.get_stamped_qualified_name(value_name, parent), values)
             parent.add_element(val)
diff --git a/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py b/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
index b6bb936..bedb771 100644
--- a/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
+++ b/framework_python/rei/format/semantics/cognitive_entity_semantic_factory.py
@@ -21,7 +21,7 @@ class CognitiveEntitySemanticFactory(AbstractElementFactory):
         if len(attr) == 0:
             raise ErrorInsufficientValues
         element_type = ''.join(raw_element_type.lower().strip().split('_'))
-        uuid = self.unique_identifier.generate_uid(id_name)
+        uuid = self.unique_identifier.generate_uid(self.get_scoped_name(element_type, id_name, parent))
         el = None
         match element_type:
             case 'cognitiveentity':
-- 
2.43.0


From a4ee12cb1e3304468eb86f70d1fe4145719ebdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 27/48] fix: updating the values of a value node updates its
 dimension and copies the values

---
 framework_python/rei/hypergraph/value_node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/hypergraph/value_node.py b/framework_python/rei/hypergraph/value_node.py
index a6d68cd..f18afe5 100644
--- a/framework_python/rei/hypergraph/value_node.py
+++ b/framework_python/rei/hypergraph/value_node.py
@@ -26,7 +26,8 @@ class ValueNode(HierarchicalElement):
         self._values[i] = arg
 
     def update_values(self, arg):
-        self._values = arg
+        self._values = [x for x in arg]
+        self.dim = len(self._values)
 
     def __getitem__(self, i, /):
         return self._values[i]
-- 
2.43.0


From 5b5f95c905ff8c007d4430ca566198278df3536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 28/48] fix: relation factorization handles one-sided
 hyperedges and both sides of bidirectional relations

---
 framework_python/rei/hypergraph/factorization_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index fc3d238..eac576f 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -85,14 +85,14 @@ class RelationFactorization2SubsetOperation(GraphMonad):
                 if __rel.parent.uuid not in self.incoming_relations:
                     self.incoming_relations[__rel.parent.uuid] = []
                 self.incoming_relations[__rel.parent.uuid].append(__rel)
-            elif __rel.direction == EnumRelationDirection.OUTWARDS:
+            if __rel.direction == EnumRelationDirection.OUTWARDS or __rel.direction == EnumRelationDirection.BIDIRECTIONAL:
                 if __rel.parent.uuid not in self.outgoing_relations:
                     self.outgoing_relations[__rel.parent.uuid] = []
                 self.outgoing_relations[__rel.parent.uuid].append(__rel)
         # Pair relations
         for k in self.incoming_relations:
             for i_e in self.incoming_relations[k]:
-                for o_e in self.outgoing_relations[k]:
+                for o_e in self.outgoing_relations.get(k, []):
                     if (o_e.endpoint.uuid != i_e.endpoint.uuid) or self.self_loop:
                         self.__relation_list.append([i_e, o_e])
         # Relation list
-- 
2.43.0


From 262d1c8ab13a379a8e1d3b004140894b4f67d1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 29/48] fix: cylinder inertia reads [radius, length], ellipsoid
 inertia handles three radii

---
 framework_python/rei/format/phys/inertia_context.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/format/phys/inertia_context.py b/framework_python/rei/format/phys/inertia_context.py
index b0948c4..d799ff6 100644
--- a/framework_python/rei/format/phys/inertia_context.py
+++ b/framework_python/rei/format/phys/inertia_context.py
@@ -56,8 +56,8 @@ def encode_inertia_element(element):
 
 
 def calc_cylinder_inertia(mass: float, geom: CylinderGeometry):
-    l = geom['values'][0]
-    r = geom['values'][1]
+    r = geom['values'][0]
+    l = geom['values'][1]
     ixy = 1.0/12.0*mass*(3*r*r+ l*l)
     izz = 0.5*mass*r*r
     return [ixy, ixy, izz, 0.0, 0.0, 0.0]
@@ -67,5 +67,6 @@ def calc_ellipsoid_inertia(mass: float, geom: EllipsoidGeometry):
         r = geom['values'][0]
         ixyz = 2.0/5.0*mass*r*r
         return [ixyz, ixyz, ixyz, 0.0, 0.0, 0.0]
-
+    a, b, c = geom['values']
+    return [1.0/5.0*mass*(b*b + c*c), 1.0/5.0*mass*(a*a + c*c), 1.0/5.0*mass*(a*a + b*b), 0.0, 0.0, 0.0]
 
-- 
2.43.0


From 06b002a880a388aacb384be0263734fa7dd41f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 30/48] fix: a link with several visuals keeps the material of
 each

---
 framework_python/rei/format/phys/solid_geometry_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/format/phys/solid_geometry_context.py b/framework_python/rei/format/phys/solid_geometry_context.py
index ae6dffb..1ca4625 100644
--- a/framework_python/rei/format/phys/solid_geometry_context.py
+++ b/framework_python/rei/format/phys/solid_geometry_context.py
@@ -105,7 +105,7 @@ def encode_geometry_element(cont_node, prefix=""):
         mat = [x for x in n.get_subelements(lambda x: isinstance(x, VisualMaterial))]
         if len(mat) != 0:
             __sem_visual.extend(geometries)
-            __sem_material = ({i: mat[0] for i in geometries})
+            __sem_material.update({i: mat[0] for i in geometries})
         else:
             __sem_collision.extend(geometries)
     # Visual geometry setup
-- 
2.43.0


From d3436d8e20012febcbe034f857627d692df42cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 31/48] fix: a link connected by something else than a joint
 can be encoded

---
 .../rei/format/phys/kinematics/kinematic_semantic_context.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
index 6c06879..6fd9833 100644
--- a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
+++ b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
@@ -53,7 +53,7 @@ def __obtain_relative_frame_name(node: HypergraphNode):
         # Normal
         x: HypergraphPort
         __rel: HypergraphRelation = x.endpoint
-        sub_el = next(__rel.get_subelements(lambda y: isinstance(y, KinematicJoint)))
+        sub_el = next(__rel.get_subelements(lambda y: isinstance(y, KinematicJoint)), None)
         if sub_el is not None:
             if __rel.direction == EnumRelationDirection.OUTWARDS:
                 e: HypergraphEdge = x.endpoint.parent
-- 
2.43.0


From 83133370a0d6e7f221cc5b4613e8cf00a90d30e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 32/48] fix: translational joints are encoded as prismatic, not
 as fixed

---
 .../rei/format/phys/kinematics/kinematic_semantic_context.py    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
index 6fd9833..d68803d 100644
--- a/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
+++ b/framework_python/rei/format/phys/kinematics/kinematic_semantic_context.py
@@ -108,6 +108,8 @@ def __encode_joint_type(joint_type: str):
             return "fixed"
         case "rev":
             return "revolute"
+        case "tr":
+            return "prismatic"
     return "fixed"
 
 
-- 
2.43.0


From 393c4d98f175fdc3f5d4b95cbf9d43043101633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 33/48] fix: referenced geometries without an SDF counterpart
 are skipped, as the direct ones

---
 framework_python/rei/format/phys/solid_geometry_context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/format/phys/solid_geometry_context.py b/framework_python/rei/format/phys/solid_geometry_context.py
index 1ca4625..ba01a35 100644
--- a/framework_python/rei/format/phys/solid_geometry_context.py
+++ b/framework_python/rei/format/phys/solid_geometry_context.py
@@ -56,7 +56,8 @@ def extract_geometry_element(element):
                 for __g in g.get_subelements(lambda x: isinstance(x, GeometryNode)):
                     el_top_geom = etree.Element("geometry")
                     el_geom = encode_typegeometry_element(__g)
-                    el_top_geom.append(el_geom)
+                    if el_geom is not None:
+                        el_top_geom.append(el_geom)
                     yield el_top_geom
 
 
-- 
2.43.0


From 0c7e51f82fc3be86d649ff9bcef3bf728f176b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 34/48] fix: every element referencing a geometry gets its
 reference, not only the first one

---
 framework_python/rei/format/mapping/cognilang_file_icon.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index 782b77c..3572200 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -134,12 +134,14 @@ class CognilangParserFileIcon(CogniLangVisitor):
         parent_graph_name = '/'.join(list(self.__get_parent_name(ctx))[::-1][:-2])
         parent_graph: HypergraphNode = self._element_cache[parent_graph_name]
         _el_ref, _inferred_name = self.__search_for_reference(ref_func(ctx).ref_(), ctx)
-        if _inferred_name not in self._reference_cache:
+        # The same element can be referenced from many others
+        _reference = '->'.join([container_node.uuid.hex(), _inferred_name])
+        if _reference not in self._reference_cache:
             ref_e = self.__factory.create_hyperedge(
                 parent_graph, f"ref_{container_node.id_name}_{str(ref_func(ctx).ref_().ID())}")
             ref_e.unary_connect(_el_ref, None, EnumRelationDirection.OUTWARDS)
             ref_e.unary_connect(container_node, None, EnumRelationDirection.INWARDS)
-            self._reference_cache[_inferred_name] = ref_e
+            self._reference_cache[_reference] = ref_e
 
     def __extract_vector_field_values(self, ctx: CogniLangParser.Field_float_vectorContext):
         yield from self.__extract_float_vector_values(ctx.float_vector())
-- 
2.43.0


From b38baadacba0d0f402b5b4f4fa1106025c30c9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 35/48] fix: kinematic graphs nested in more levels are encoded
 once per instance, with closed references

---
 .../rei/format/mapping/cognilang_sdf_icon.py     | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/framework_python/rei/format/mapping/cognilang_sdf_icon.py b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
index 9117718..101b8c3 100644
--- a/framework_python/rei/format/mapping/cognilang_sdf_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_sdf_icon.py
@@ -57,12 +57,18 @@ class CognilangSdfIcon(CognitiveIcon):
     def __is_kinematic_graph(el: HypergraphNode):
         return len(list(el.get_subelements(lambda x: isinstance(x, KinematicGraphDefinition)))) > 0
 
+    @staticmethod
+    def __is_own_element(graph: HypergraphNode):
+        # Nested kinematic graphs are encoded at their own joints
+        return lambda x: x is graph or not CognilangSdfIcon.__is_kinematic_graph(x)
+
     async def get_canonical_link(self, graph: HypergraphNode) -> typing.Set:
         __sub_engine = HypergraphQueryEngine("engine", b'00', "engine/engine", self.__sub_engine.clock, None)
         __sub_engine.clear()
         link_query = HierarchicalPrepositionQuery(
-            graph, lambda x: isinstance(x, KinematicLink), lambda x: True)
-        joint_query = HierarchicalPrepositionQuery(graph, lambda x: isinstance(x, KinematicJoint), lambda x: True)
+            graph, lambda x: isinstance(x, KinematicLink), self.__is_own_element(graph))
+        joint_query = HierarchicalPrepositionQuery(
+            graph, lambda x: isinstance(x, KinematicJoint), self.__is_own_element(graph))
         __sub_engine.add_query(f'{graph.id_name}_link_query', link_query)
         __sub_engine.add_query(f'{graph.id_name}_joint_query', joint_query)
         res = await __sub_engine.execute()
@@ -77,11 +83,11 @@ class CognilangSdfIcon(CognitiveIcon):
 
     async def encode_sub_graph(self, joint, prefix):
         self.__sub_engine.clear()
-        prefix_t1 = prefix + joint.parent.id_name
+        prefix_t1 = join_w_prefix_separator([joint.parent.id_name], '.', prefix)
         link_query = HierarchicalPrepositionQuery(
-            joint.endpoint, lambda x: isinstance(x, KinematicLink), lambda x: True)
+            joint.endpoint, lambda x: isinstance(x, KinematicLink), self.__is_own_element(joint.endpoint))
         joint_query = HierarchicalPrepositionQuery(
-            joint.endpoint, lambda x: isinstance(x, KinematicJoint), lambda x: True)
+            joint.endpoint, lambda x: isinstance(x, KinematicJoint), self.__is_own_element(joint.endpoint))
         self.__sub_engine.add_query(f'{joint.id_name}_link_query', link_query)
         self.__sub_engine.add_query(f'{joint.id_name}_joint_query', joint_query)
         res = await self.__sub_engine.execute()
-- 
2.43.0


From 7db47747b5e7297c15e6a11cd1b516346ef588d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 36/48] fix: projected entropy of a singular Laplacian is
 finite

---
 framework_python/rei/tensor/tensor_representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework_python/rei/tensor/tensor_representation.py b/framework_python/rei/tensor/tensor_representation.py
index c9f91ce..79f4c33 100644
--- a/framework_python/rei/tensor/tensor_representation.py
+++ b/framework_python/rei/tensor/tensor_representation.py
@@ -49,7 +49,7 @@ class NumpyTensorRepresentation(AbstractTensorRepresentation):
 
     def entropy_projected_vector(self):
         v = np.abs(np.linalg.eig(self.Lp/self.total_deg)[0])
-        return -v*np.log2(v)
+        return -v*np.nan_to_num(np.log2(v), neginf=0, posinf=0)
 
     def entropy_projected(self):
         return np.sum(self.entropy_projected_vector())
-- 
2.43.0


From 280d1c1a6c91dab7fa36d392c41d0ecfb425f8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 37/48] fix: a query engine does not return the results left
 over from a failed execution

---
 framework_python/rei/query/query_engine.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/framework_python/rei/query/query_engine.py b/framework_python/rei/query/query_engine.py
index 7361577..17d1dc2 100644
--- a/framework_python/rei/query/query_engine.py
+++ b/framework_python/rei/query/query_engine.py
@@ -27,8 +27,9 @@ class HierarchicalPrepositionQuery(GraphMonad):
                                                                             HypergraphEdge | SemanticValueNode) and traversal_statement(x))
 
     async def prefilter(self):
-        # Pending coroutines of a previous execution must not be awaited again
+        # Pending coroutines and results of a previous (failed) execution must not be used again
         self.__prefilter = []
+        self.__result = asyncio.Queue()
         await self.__bfs.execute(self.__start)
         return self.__prefilter
 
@@ -74,14 +75,11 @@ class HypergraphQueryEngine(HypergraphNode):
         return task_list
 
     async def execute(self):
-        prefilter = self.prefilter_queries()
-        for i in prefilter:
-            for task in await i:
-                await task
         res = []
-        __task_list = await self.task_result_queries_lists()
-        for t in __task_list:
-            res.extend(await t)
+        for query in self.__queries.values():
+            for task in await query.prefilter():
+                await task
+            res.extend(await query.get_list_results())
         return res
 
     def execute_all_queries(self):
-- 
2.43.0


From 97890454093602e56cf9e7922737253658ee1515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 38/48] fix: integers of cognitive descriptions are recognized
 as such, not as decimals

---
 .../speclanguage/src/main/antlr4/HypergraphBasicElements.g4     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/framework/cognitive/speclanguage/src/main/antlr4/HypergraphBasicElements.g4 b/framework/cognitive/speclanguage/src/main/antlr4/HypergraphBasicElements.g4
index 9a9ac32..106509b 100644
--- a/framework/cognitive/speclanguage/src/main/antlr4/HypergraphBasicElements.g4
+++ b/framework/cognitive/speclanguage/src/main/antlr4/HypergraphBasicElements.g4
@@ -48,7 +48,7 @@ bi_dir  : BI_DIR;
 BI_DIR  : '--';
 
 
-DECIMALS: [0-9]+;
+fragment DECIMALS: [0-9]+;
 ID      : [a-zA-Z_/]+DECIMALS*ID*;
 INT     : [-]?DECIMALS+;
 FLOAT   : [-]?DECIMALS+('.'DECIMALS)+?;
-- 
2.43.0


From 599a45720fbbf2aa2b7e8c2c0709b40cddb3360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 39/48] fix: joints refer to the link of the given name, not to
 the semantic element of its graph

---
 framework_python/rei/format/mapping/cognilang_file_icon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index 3572200..f345091 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -64,7 +64,9 @@ class CognilangParserFileIcon(CogniLangVisitor):
             if reference_name == "world":
                 return self._element_cache["world"], reference_name
             else:
-                return list(parent.get_element_by_id_name(reference_name))[0], reference_name
+                # Semantic elements of the parent can have the same name
+                return next(x for x in parent.get_element_by_id_name(reference_name)
+                            if isinstance(x, HypergraphNode)), reference_name
 
     def __extract_joint_relation(self, ctx: CogniLangParser.Joint_relationContext, parent: HypergraphElement):
         __endpoint, reference_name = self.__lookup_reference(ctx, parent)
-- 
2.43.0


From f8dd45652eaf195f1f109a04349748eb0e11b89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:38 +0000
Subject: [PATCH 40/48] fix: interpret each description with the same parser
 icon on its own

---
 .../rei/format/mapping/cognilang_file_icon.py             | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index f345091..0f7e734 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -20,11 +20,14 @@ class CognilangParserFileIcon(CogniLangVisitor):
 
     def __init__(self, icon_name: str, clock: MetaClock):
         super().__init__()
-        self._element_cache = {}
         self.__icon_name = icon_name
         self.__clock = clock
         self.__factory = HypergraphFactory(f"factory_{self.__icon_name}", self.__clock)
         self.__cognitive_element_factory = CognitiveEntitySemanticFactory(f"cogni_{self.__icon_name}", self.__clock)
+        self.__setup_description()
+
+    def __setup_description(self):
+        self._element_cache = {}
         self.__root_entity = None
         # Handling special world node
         self._element_cache['world'] = self.__factory.generate_node("world", None)
@@ -245,6 +248,9 @@ class CognilangParserFileIcon(CogniLangVisitor):
     def visitRootnode(self, ctx: CogniLangParser.RootnodeContext):
         if self.__factory is None:
             raise ErrorParserNoFactorySet
+        # Elements, references and parameters of a previous description are of no importance
+        if self.__root_entity is not None:
+            self.__setup_description()
         return self.visitChildren(ctx)
 
     def visitEntity(self, ctx: CogniLangParser.EntityContext):
-- 
2.43.0


From 1af37aef659e7f9940d95d35ef21887dee080da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 41/48] fix: references of shapes of the same name in different
 links are told apart

---
 framework_python/rei/format/mapping/cognilang_file_icon.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/format/mapping/cognilang_file_icon.py b/framework_python/rei/format/mapping/cognilang_file_icon.py
index 0f7e734..e19b845 100644
--- a/framework_python/rei/format/mapping/cognilang_file_icon.py
+++ b/framework_python/rei/format/mapping/cognilang_file_icon.py
@@ -142,8 +142,10 @@ class CognilangParserFileIcon(CogniLangVisitor):
         # The same element can be referenced from many others
         _reference = '->'.join([container_node.uuid.hex(), _inferred_name])
         if _reference not in self._reference_cache:
+            # Elements of the same name in other links can refer to the same element
             ref_e = self.__factory.create_hyperedge(
-                parent_graph, f"ref_{container_node.id_name}_{str(ref_func(ctx).ref_().ID())}")
+                parent_graph, '.'.join([f"ref_{container_node.parent.parent.id_name}", container_node.id_name,
+                                        str(ref_func(ctx).ref_().ID())]))
             ref_e.unary_connect(_el_ref, None, EnumRelationDirection.OUTWARDS)
             ref_e.unary_connect(container_node, None, EnumRelationDirection.INWARDS)
             self._reference_cache[_reference] = ref_e
-- 
2.43.0


From 01effaa0fc1d6ce4260c99ba79944098e080af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:21 +0000
Subject: [PATCH 42/48] fix: look-ups by path do not depend on the recursion
 limit

---
 framework_python/rei/foundations/conceptual_item.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 66c5bd3..6d52baf 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -231,10 +231,13 @@ class ConceptualItem(HierarchicalElement, InterfaceSetMultipleElementsOperation,
             else:
                 yield from []
         else:
-            # Iterate all possible named elements (not all of them can be searched by name)
-            for v in list(self._index_elements_by_name.get(tokens[0], {}).values()):
-                if isinstance(v, InterfaceNamedSubelements):
-                    yield from v.get_element_by_id_name('/'.join(tokens[1:]))
+            # Descend name by name, as the path can be longer than the recursion limit
+            elements = [self]
+            for token in tokens:
+                # Iterate all possible named elements (not all of them can be searched by name)
+                elements = [x for v in elements if isinstance(v, InterfaceNamedSubelements)
+                            for x in v.get_element_by_id_name(token)]
+            yield from elements
 
     def update(self):
         self._update_timestamp()
-- 
2.43.0


From 87e6cdccce45859aa8831e942d864a8c29490dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:50 +0000
Subject: [PATCH 43/48] fix: a factory given an endpoint twice creates no
 partially connected edge

---
 framework_python/rei/factories/foundation_factory.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/framework_python/rei/factories/foundation_factory.py b/framework_python/rei/factories/foundation_factory.py
index 6fa9dc8..df197d8 100644
--- a/framework_python/rei/factories/foundation_factory.py
+++ b/framework_python/rei/factories/foundation_factory.py
@@ -2,6 +2,7 @@ import typing
 
 from rei.factories.abstract_factory import AbstractElementFactory, ErrorInsufficientValues
 from rei.foundations.clock import MetaClock
+from rei.foundations.common_errors import ErrorDuplicateElement
 from rei.hypergraph.base_elements import HypergraphNode, HypergraphEdge
 from rei.hypergraph.common_definitions import EnumRelationDirection
 from rei.hypergraph.value_node import ValueNode, SemanticValueNode
@@ -28,6 +29,12 @@ class HypergraphFactory(AbstractElementFactory):
     # Generator functions
     #
 
+    @staticmethod
+    def __check_endpoints(nodes: list[HypergraphNode]):
+        # An edge has one relation to each endpoint, do not leave a partially connected edge behind
+        if len({n.uuid for n in nodes}) != len(nodes):
+            raise ErrorDuplicateElement
+
     def create_hyperedge(self, parent: HypergraphNode, edge_name: str):
         uuid: bytes = self.unique_identifier.generate_uid(self.get_scoped_name("edge", edge_name, parent))
         he = HypergraphEdge(edge_name, uuid,
@@ -44,6 +51,7 @@ class HypergraphFactory(AbstractElementFactory):
             if len(values) != len(nodes):
                 raise ErrorInsufficientValues
             node_values = zip(nodes, values)
+        self.__check_endpoints(nodes)
         uuid: bytes = self.unique_identifier.generate_uid(self.get_scoped_name("edge", edge_name, container))
         he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         for n,v in node_values:
@@ -62,6 +70,7 @@ class HypergraphFactory(AbstractElementFactory):
                 raise ErrorInsufficientValues
             node_in_values = zip(in_dir_nodes, values[:len(in_dir_nodes)])
             node_out_values = zip(out_dir_nodes, values[len(in_dir_nodes):])
+        self.__check_endpoints([*in_dir_nodes, *out_dir_nodes])
         uuid: bytes = self.unique_identifier.generate_uid(self.get_scoped_name("edge", edge_name, container))
         he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         for n,v in node_in_values:
@@ -85,6 +94,8 @@ class HypergraphFactory(AbstractElementFactory):
         :param nodes: endpoint, direction, value node, semantiv calue node
         :return:
         """
+        nodes = list(nodes)
+        self.__check_endpoints([n for n, _, _, _ in nodes])
         uuid: bytes = self.unique_identifier.generate_uid(self.get_scoped_name("edge", edge_name, container))
         he = HypergraphEdge(edge_name, uuid, self.get_stamped_qualified_name(edge_name, container), container.clock, container)
         for n, dir, v, sv in nodes:
-- 
2.43.0


From e3062399fd213981ae09cb8219f6683de6807c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:05 +0000
Subject: [PATCH 44/48] fix: the dimension of a value follows the assignment of
 slices

---
 framework_python/rei/hypergraph/value_node.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/framework_python/rei/hypergraph/value_node.py b/framework_python/rei/hypergraph/value_node.py
index f18afe5..413600d 100644
--- a/framework_python/rei/hypergraph/value_node.py
+++ b/framework_python/rei/hypergraph/value_node.py
@@ -12,13 +12,16 @@ class ValueNode(HierarchicalElement):
         super().__init__(uuid, id_name, progenitor_qualified_name, parent)
         if values is not None:
             self._values = [x for x in values]
-            self.dim = len(self._values)
         else:
             self._values = []
-            self.dim = 0
         # Iteration
         self._recent_element = 0
 
+    @property
+    def dim(self):
+        # Slices can be assigned, too
+        return len(self._values)
+
     def get_value(self, i):
         return self._values[i]
 
@@ -27,7 +30,6 @@ class ValueNode(HierarchicalElement):
 
     def update_values(self, arg):
         self._values = [x for x in arg]
-        self.dim = len(self._values)
 
     def __getitem__(self, i, /):
         return self._values[i]
-- 
2.43.0


From 2e3cf9b098594817816464601e92301f04985232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:55 +0000
Subject: [PATCH 45/48] fix: a search reaches elements with the identifier of
 another element

---
 framework_python/rei/foundations/query/search_elements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/foundations/query/search_elements.py b/framework_python/rei/foundations/query/search_elements.py
index f6a943e..dc9e190 100644
--- a/framework_python/rei/foundations/query/search_elements.py
+++ b/framework_python/rei/foundations/query/search_elements.py
@@ -91,13 +91,14 @@ class QuerySearchElement(GraphQuery):
     async def _traverse(self, fringe: asyncio.Queue):
         while not fringe.empty():
             __next: HypergraphElement = await fringe.get()
-            self.visited_set.add(__next.uuid)
+            # Identifiers are unique among siblings only
+            self.visited_set.add(id(__next))
             if __next.qualified_name == self._query_def:
                 self._element_cache[__next.qualified_name] = __next
                 self._result.append(__next)
                 return
             for n in __next.get_subelements(lambda x: True):
-                if n.uuid not in self.visited_set:
+                if id(n) not in self.visited_set:
                     await fringe.put(n)
                     fringe.task_done()
             if __next.parent is not None:
-- 
2.43.0


From 2812f43c5e03c0cb975b156f1ac5d013ea9eec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:34 +0000
Subject: [PATCH 46/48] fix: a hierarchy whose root is an edge can be printed

---
 .../rei/foundations/hierarchical_traversal_strategies.py     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/framework_python/rei/foundations/hierarchical_traversal_strategies.py b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
index 5412921..bd5b864 100644
--- a/framework_python/rei/foundations/hierarchical_traversal_strategies.py
+++ b/framework_python/rei/foundations/hierarchical_traversal_strategies.py
@@ -111,7 +111,10 @@ def print_element(_el):
                 print(f"node {_el.qualified_name}: {_el.id_name} <- {_el.parent.id_name}")
         case HypergraphEdge():
             _el: HypergraphEdge
-            print(f"edge {_el.qualified_name}: {_el.id_name} {_el.cnt_subelements} <- {_el.parent.id_name}")
+            if _el.parent is None:
+                print(f"edge {_el.qualified_name}: {_el.id_name} {_el.cnt_subelements}")
+            else:
+                print(f"edge {_el.qualified_name}: {_el.id_name} {_el.cnt_subelements} <- {_el.parent.id_name}")
         case HypergraphRelation():
             _el: HypergraphRelation
             print(f"relation {_el.qualified_name}: {direction_to_text(_el.direction)} {_el.endpoint.id_name}:: {_el.weight}")
-- 
2.43.0


From 59c1dc126ca169437be975d138d1b47a17b61333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:07 +0000
Subject: [PATCH 47/48] fix: factorize subsets which are given as views

---
 framework_python/rei/hypergraph/factorization_operations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/framework_python/rei/hypergraph/factorization_operations.py b/framework_python/rei/hypergraph/factorization_operations.py
index eac576f..32b8523 100644
--- a/framework_python/rei/hypergraph/factorization_operations.py
+++ b/framework_python/rei/hypergraph/factorization_operations.py
@@ -54,6 +54,8 @@ class Factorization2SubsetOperation(GraphMonad):
 
     async def execute(self, start) -> list[asyncio.Future]:
         self.__relation_list = []
+        # The subset is read more than once, it can be a view of an element
+        start = list(start)
         self.nodes = [x for x in filter(lambda x: isinstance(x, HypergraphNode), start)]
         for __edge in filter(lambda x: isinstance(x, HypergraphEdge), start):
             __edge: HypergraphEdge
@@ -75,6 +77,8 @@ class RelationFactorization2SubsetOperation(GraphMonad):
 
     async def execute(self, start) -> list[asyncio.Future]:
         self.__relation_list = []
+        # The subset is read more than once, it can be a view of an element
+        start = list(start)
         self.nodes = [x for x in filter(lambda x: isinstance(x, HypergraphNode), start)]
         self.incoming_relations = {}
         self.outgoing_relations = {}
-- 
2.43.0


From 75fa821afaab0c98cc04a07ca4791fc58c95f6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:09 +0000
Subject: [PATCH 48/48] fix: move and remove several elements given as a view

---
 framework_python/rei/foundations/conceptual_item.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/framework_python/rei/foundations/conceptual_item.py b/framework_python/rei/foundations/conceptual_item.py
index 6d52baf..48c4c1d 100644
--- a/framework_python/rei/foundations/conceptual_item.py
+++ b/framework_python/rei/foundations/conceptual_item.py
@@ -215,11 +215,12 @@ class ConceptualItem(HierarchicalElement, InterfaceSetMultipleElementsOperation,
 
 
     async def add_elements(self, elements: typing.Iterable[typing.Any]) -> asyncio.Future:
-        for x in elements:
+        # The elements can be given as a view of an element which changes
+        for x in list(elements):
             self.add_element(x)
 
     async def remove_elements(self, elements: typing.Iterable[tuple[str, bytes]]) -> asyncio.Future:
-        return [x for e in elements for x in self.remove_element(e[0], e[1])]
+        return [x for e in list(elements) for x in self.remove_element(e[0], e[1])]
 
     def get_element_by_id_name(self, id_name: str) -> typing.Generator:
         tokens = id_name.split('/')
-- 
2.43.0

