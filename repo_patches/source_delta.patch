From f0127f3c530da03721c0a45fb204101ce4275f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:30 +0000
Subject: [PATCH 01/62] fix: interval windows treat a bound of 0 as given and
 an omitted bound as unbounded

---
 dynetworkx/classes/intervaltree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index ff9e366..4e2332f 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -215,10 +215,10 @@ class IntervalTree:
             root = self.root
             if not root:
                 return []
-        if not interval_start:
-            interval_start = self.begin
-        if not interval_end:
-            interval_end = self.end
+        if interval_start is None:
+            interval_start = float("-inf")
+        if interval_end is None:
+            interval_end = float("inf")
 
         for node in self.query(root, interval_start, interval_end):
             yield from node.edges
-- 
2.43.0


From f003837536e934c1c9b5195a91e305b033f6f210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:01 +0000
Subject: [PATCH 02/62] fix: unique timestamps on bounds, with a bound of 0 and
 on empty interval graphs

---
 dynetworkx/classes/intervaltree.py | 32 +++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index 4e2332f..120493a 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -158,6 +158,20 @@ class IntervalTree:
         if node.right and node.low <= end and node.right.max >= begin:
             yield from self.query(node.right, begin, end)
 
+    def queryTouching(self, node, begin, end):
+        # like query, but with both ends inclusive: also intervals ending at begin or beginning at end
+        if node is None:
+            return
+
+        if node.left and node.left.max >= begin:
+            yield from self.queryTouching(node.left, begin, end)
+
+        if node.low <= end and node.high >= begin:
+            yield node
+
+        if node.right and node.low <= end and node.right.max >= begin:
+            yield from self.queryTouching(node.right, begin, end)
+
     def add(self, edge):
         # edge = (u, v, begin, end)
         start = edge[2]
@@ -226,9 +240,9 @@ class IntervalTree:
     def unique_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -240,7 +254,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.queryTouching(self.root, begin, end):
             if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):
                 timestamps.add(n.low)
             if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):
@@ -251,9 +265,9 @@ class IntervalTree:
     def unique_begin_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -265,7 +279,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.queryTouching(self.root, begin, end):
             if n.low not in timestamps and begin_operator(begin, n.low) and end_operator(n.low, end):
                 timestamps.add(n.low)
 
@@ -274,9 +288,9 @@ class IntervalTree:
     def unique_end_timestamps(self, begin=None, end=None, inclusive=(True, True)):
         timestamps = set()
 
-        if not begin:
+        if begin is None:
             begin = self.begin
-        if not end:
+        if end is None:
             end = self.end
 
         if inclusive[0]:
@@ -288,7 +302,7 @@ class IntervalTree:
         else:
             end_operator = operator.__lt__
 
-        for n in self.query(self.root, begin, end):
+        for n in self.queryTouching(self.root, begin, end):
             if n.high not in timestamps and begin_operator(begin, n.high) and end_operator(n.high, end):
                 timestamps.add(n.high)
 
-- 
2.43.0


From 755e8109abcaec0ac73e120df7e7dcc50665be5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:38 +0000
Subject: [PATCH 03/62] fix: removing nodes and self-loops from an
 IntervalGraph removes exactly their edges

---
 dynetworkx/classes/intervalgraph.py | 32 ++++++++++-------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 391f434..a72e1ef 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -610,16 +610,12 @@ class IntervalGraph(object):
             return
 
         if begin is None and end is None:
-            self._adj.pop(n, None)
-            for v in self._adj:
-                if n in self._adj[v]:
-                    self._adj[v].pop(n, None)
-
+            iedges = [iedge for v in self._adj.get(n, {}) for iedge in self._adj[n][v]]
         else:
-            iedges = self.tree[begin:end]
-            for iedge in iedges:
-                if iedge[0] == n or iedge[1] == n:
-                    self.__remove_iedge(iedge)
+            iedges = [iedge for iedge in self.tree[begin:end] if iedge[0] == n or iedge[1] == n]
+
+        for iedge in iedges:
+            self.__remove_iedge(iedge)
 
         # delete the node and its attributes if no edge left
         if n not in self._adj or len(self._adj[n]) == 0:
@@ -1087,16 +1083,6 @@ class IntervalGraph(object):
         for iv in iedges_to_remove:
             self.__remove_iedge(iv)
 
-        # clean up empty dictionaries
-        if len(self._adj[u][v]) == 0:
-            self._adj[u].pop(v, None)
-        if len(self._adj[v][u]) == 0:
-            self._adj[v].pop(u, None)
-        if len(self._adj[u]) == 0:
-            self._adj.pop(u, None)
-        if len(self._adj[v]) == 0:
-            self._adj.pop(v, None)
-
     def degree(self, node=None, begin=None, end=None, delta=False):
         """Return the degree of a specified node between time begin and end.
 
@@ -1194,8 +1180,12 @@ class IntervalGraph(object):
         """
 
         self.tree.remove(iedge)
-        self._adj[iedge[0]][iedge[1]].pop(iedge, None)
-        self._adj[iedge[1]][iedge[0]].pop(iedge, None)
+        for u, v in ((iedge[0], iedge[1]), (iedge[1], iedge[0])):
+            if v in self._adj[u]:
+                self._adj[u][v].pop(iedge, None)
+                # clean up empty dictionary
+                if len(self._adj[u][v]) == 0:
+                    self._adj[u].pop(v)
 
     def __generate_training_data(self, training_size):
         """Returns list of training samples, X = (node_percent, interval_percent), y = (node_time, interval_time).
-- 
2.43.0


From e006a3513059f8af4e2501f7a62cac3150300056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:14 +0000
Subject: [PATCH 04/62] fix: removing nodes from an IntervalDiGraph

---
 dynetworkx/classes/intervaldigraph.py | 52 +++++++++++++++++++++------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 2749aa1..1ade9ba 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -78,6 +78,43 @@ class IntervalDiGraph(IntervalGraph):
         self._pred.setdefault(node_for_adding, {})
         self._succ.setdefault(node_for_adding, {})
 
+    def remove_node(self, n, begin=None, end=None):
+        """Remove the presence of a node n within the given interval.
+
+        Removes the presence node n and all its incoming and outgoing edges within the given interval.
+
+        If interval is specified, all the edges of n will be removed within that interval.
+
+        Quiet if n is not in the interval graph.
+
+        Parameters
+        ----------
+        n : node
+           A node in the graph
+        begin: int or float, optional  (default= beginning of the entire interval graph)
+            Inclusive beginning time of the node appearing in the interval graph.
+        end: int or float, optional  (default= end of the entire interval graph + 1)
+            Non-inclusive ending time of the node appearing in the interval graph.
+            Must be bigger than or equal to begin.
+            Note that the default value is shifted up by 1 to make it an inclusive end.
+        """
+
+        if n not in self._node:
+            return
+
+        iedges = {iedge for v in self._pred.get(n, {}) for iedge in self._pred[n][v]}
+        iedges.update(iedge for u in self._succ.get(n, {}) for iedge in self._succ[n][u])
+
+        for iedge in iedges:
+            if self.__overlaps_or_contains(iedge, begin, end):
+                self.__remove_iedge(iedge)
+
+        # delete the node and its attributes if no edge left
+        if len(self._pred.get(n, {})) == 0 and len(self._succ.get(n, {})) == 0:
+            self._pred.pop(n, None)
+            self._succ.pop(n, None)
+            self._node.pop(n, None)
+
     def add_edge(self, u, v, begin, end, **attr):
         """Add an edge between u and v, during interval [begin, end).
 
@@ -601,16 +638,6 @@ class IntervalDiGraph(IntervalGraph):
         for iv in iedges_to_remove:
             self.__remove_iedge(iv)
 
-        # clean up empty dictionaries
-        if len(self._pred[u][v]) == 0:
-            self._pred[u].pop(v, None)
-        if len(self._succ[v][u]) == 0:
-            self._succ[v].pop(u, None)
-        if len(self._pred[u]) == 0:
-            self._pred.pop(u, None)
-        if len(self._succ[v]) == 0:
-            self._succ.pop(v, None)
-
     def degree(self, node=None, begin=None, end=None, delta=False):
         """Return the degree of a specified node between time begin and end.
 
@@ -967,6 +994,11 @@ class IntervalDiGraph(IntervalGraph):
         self._pred[iedge[0]][iedge[1]].pop(iedge, None)
         self._succ[iedge[1]][iedge[0]].pop(iedge, None)
 
+        # clean up empty dictionaries
+        if len(self._pred[iedge[0]][iedge[1]]) == 0:
+            self._pred[iedge[0]].pop(iedge[1])
+            self._succ[iedge[1]].pop(iedge[0])
+
     @staticmethod
     def __overlaps_or_contains(iv, begin, end):
         """Returns True if interval `iv` overlaps with begin and end.
-- 
2.43.0


From 095bc29309a4f1c554a80ac829078634741ee035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:30 +0000
Subject: [PATCH 05/62] fix: removing an edge keeps the other edges in the
 interval tree and updates the extent

---
 dynetworkx/classes/intervaltree.py | 38 +++++++++++++++++-------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index 120493a..c541840 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -76,13 +76,19 @@ class IntervalTree:
 
     def discard(self, root, node):
         if root is node:
-            if root.left:
-                return root.left
-            if root.right:
+            if root.left is None:
                 return root.right
-            return None
+            if root.right is None:
+                return root.left
 
-        if node.low < root.low or (node.low == root.low and node.high < root.high):
+            # two subtrees: the next node in order takes the place of the removed one
+            successor = root.right
+            while successor.left:
+                successor = successor.left
+            successor.right = self.discard(root.right, successor)
+            successor.left = root.left
+            root = successor
+        elif node.low < root.low or (node.low == root.low and node.high < root.high):
             root.left = self.discard(root.left, node)
         else:
             root.right = self.discard(root.right, node)
@@ -92,12 +98,12 @@ class IntervalTree:
         balance = self.getBalance(root)
 
         if balance > 1:
-            if root.left.right == node:
+            if self.getBalance(root.left) < 0:
                 root.left = self.leftRotate(root.left)
             return self.rightRotate(root)
 
         elif balance < -1:
-            if root.right.left == node:
+            if self.getBalance(root.right) > 0:
                 root.right = self.rightRotate(root.right)
             return self.leftRotate(root)
 
@@ -210,17 +216,17 @@ class IntervalTree:
         node.edges.remove(edge)
         self.number_of_edges -= 1
         if len(node.edges) == 0:
-            self.discard(self.root, node)
-        if self.begin == start:
+            self.root = self.discard(self.root, node)
+            del self.nodes[(start, end)]
+        if self.root is None:
+            self.begin = float("inf")
+            self.end = float("-inf")
+        else:
             traversal_node = self.root
-            while traversal_node.left != None:
-                self.begin = traversal_node.left.low
+            while traversal_node.left is not None:
                 traversal_node = traversal_node.left
-        if self.end == end:
-            traversal_node = self.root
-            while traversal_node.right != None:
-                self.end = traversal_node.right.high
-                traversal_node = traversal_node.right
+            self.begin = traversal_node.low
+            self.end = self.root.max
 
         return
 
-- 
2.43.0


From 286e3a651784ff8acdee6fea4de326cf8fae326f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:02 +0000
Subject: [PATCH 06/62] fix: exact interval match (overlapping=False) in
 has_edge and remove_edge

---
 dynetworkx/classes/intervaldigraph.py | 7 +++----
 dynetworkx/classes/intervalgraph.py   | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 1ade9ba..c9829d7 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -294,7 +294,7 @@ class IntervalDiGraph(IntervalGraph):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            return self.edges(u, v, begin, end) is not None
+            return any(iv[2] == begin and iv[3] == end for iv in self._pred[u][v])
 
         if begin and end and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
@@ -612,9 +612,8 @@ class IntervalDiGraph(IntervalGraph):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            iedge = self.edges(u, v, begin, end)
-            if iedge is not None:
-                self.__remove_iedge(iedge)
+            for iv in [iv for iv in self._pred[u][v] if iv[2] == begin and iv[3] == end]:
+                self.__remove_iedge(iv)
             return
 
         iedges_to_remove = []
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index a72e1ef..6098d24 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -794,7 +794,7 @@ class IntervalGraph(object):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            return self.edges(u, v, begin, end) is not None
+            return any(iv[2] == begin and iv[3] == end for iv in self._adj[u][v])
 
         if begin and end and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
@@ -1057,9 +1057,8 @@ class IntervalGraph(object):
             if begin is None or end is None:
                 raise NetworkXError("For exact interval match (overlapping=False), both begin and end must be defined.")
 
-            iedge = self.edges(u, v, begin, end)
-            if iedge is not None:
-                self.__remove_iedge(iedge)
+            for iv in [iv for iv in self._adj[u][v] if iv[2] == begin and iv[3] == end]:
+                self.__remove_iedge(iv)
             return
 
         iedges_to_remove = []
-- 
2.43.0


From ba4dcf190dcfc2432974d23d9403b33ed364ea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:17 +0000
Subject: [PATCH 07/62] fix: reject reversed windows when a bound is 0

---
 dynetworkx/classes/impulsedigraph.py  | 2 +-
 dynetworkx/classes/impulsegraph.py    | 2 +-
 dynetworkx/classes/intervaldigraph.py | 6 +++---
 dynetworkx/classes/intervalgraph.py   | 6 +++---
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 81690c0..8f12304 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -309,7 +309,7 @@ class ImpulseDiGraph(ImpulseGraph):
         if begin is None and end is None:
             return True
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 91427f9..ceae459 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -645,7 +645,7 @@ class ImpulseGraph(object):
         if begin is None and end is None:
             return True
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index c9829d7..159a9a2 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -296,7 +296,7 @@ class IntervalDiGraph(IntervalGraph):
 
             return any(iv[2] == begin and iv[3] == end for iv in self._pred[u][v])
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -625,7 +625,7 @@ class IntervalDiGraph(IntervalGraph):
 
         # remove edge between u and v with overlapping interval with the given interval
         else:
-            if begin and end and begin > end:
+            if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -943,7 +943,7 @@ class IntervalDiGraph(IntervalGraph):
         >>> list(M.edges(data=True))
         [(1, 2, {'end': 10, 'begin': 3}), (2, 4, {'end': 11, 'begin': 1}), (2, 4, {'end': 15, 'begin': 8})]
         """
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
         iedges = self.tree[begin:end]
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 6098d24..815be86 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -491,7 +491,7 @@ class IntervalGraph(object):
         if begin is not None and end is not None and end < begin:
             return False
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -796,7 +796,7 @@ class IntervalGraph(object):
 
             return any(iv[2] == begin and iv[3] == end for iv in self._adj[u][v])
 
-        if begin and end and begin > end:
+        if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
@@ -1070,7 +1070,7 @@ class IntervalGraph(object):
 
         # remove edge between u and v with overlapping interval with the given interval
         else:
-            if begin and end and begin > end:
+            if begin is not None and end is not None and begin > end:
                 raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                     "begin: {}, end: {}.".format(begin, end))
 
-- 
2.43.0


From 54c1bbce0ac0d7d6fc17d1e3981f94e31cbc864a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:04 +0000
Subject: [PATCH 08/62] fix: string and tuple nodes as edge constraints are
 single nodes

---
 dynetworkx/classes/impulsedigraph.py  | 11 ++---------
 dynetworkx/classes/impulsegraph.py    | 27 ++++++++++++++++++---------
 dynetworkx/classes/intervaldigraph.py | 11 ++---------
 dynetworkx/classes/intervalgraph.py   | 27 ++++++++++++++++++---------
 4 files changed, 40 insertions(+), 36 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 8f12304..ce448f3 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -458,15 +458,8 @@ class ImpulseDiGraph(ImpulseGraph):
         [((1, 3, 4), 8)]
         """
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        u = self._node_list(u)
+        v = self._node_list(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index ceae459..e0c27c9 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -753,6 +753,22 @@ class ImpulseGraph(object):
                                 "begin: {}, end: {}.".format(begin, end))
         return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False)) for u, v in self.tree[t]]
 
+    def _node_list(self, nbunch):
+        """Return the nodes given by nbunch, a single node or a collection of nodes, as a list.
+
+        A string, or any other hashable object which is a node of the graph, is a single node.
+        """
+        try:
+            if nbunch is None or isinstance(nbunch, str) or nbunch in self._node:
+                return [nbunch]
+        except TypeError:
+            pass
+
+        try:
+            return list(nbunch)
+        except TypeError:
+            return [nbunch]
+
     def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
         """Returns a list of Interval objects of the ImpulseGraph edges.
 
@@ -836,15 +852,8 @@ class ImpulseGraph(object):
         [((1, 3, 4), 8)]
         """
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        u = self._node_list(u)
+        v = self._node_list(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 159a9a2..4e82d2c 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -430,15 +430,8 @@ class IntervalDiGraph(IntervalGraph):
         # If non of the nodes are defined the interval tree is queried for the list of edges,
         # otherwise the edges are returned based on the nodes in the self._adj.o
 
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        u = self._node_list(u)
+        v = self._node_list(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 815be86..642971e 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -843,6 +843,22 @@ class IntervalGraph(object):
                                 "begin: {}, end: {}.".format(begin, end))
         return self.tree[begin:end]
 
+    def _node_list(self, nbunch):
+        """Return the nodes given by nbunch, a single node or a collection of nodes, as a list.
+
+        A string, or any other hashable object which is a node of the graph, is a single node.
+        """
+        try:
+            if nbunch is None or isinstance(nbunch, str) or nbunch in self._node:
+                return [nbunch]
+        except TypeError:
+            pass
+
+        try:
+            return list(nbunch)
+        except TypeError:
+            return [nbunch]
+
     def edges(self, u=None, v=None, begin=None, end=None, data=False, default=None):
         """Returns a list of Interval objects of the IntervalGraph edges.
 
@@ -937,15 +953,8 @@ class IntervalGraph(object):
         # otherwise the edges are returned based on the nodes in the self._adj.
 
         # Pack u and v if necessary
-        try:
-            _ = (e for e in u)
-        except TypeError:
-            u = [u]
-
-        try:
-            _ = (e for e in v)
-        except TypeError:
-            v = [v]
+        u = self._node_list(u)
+        v = self._node_list(v)
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-- 
2.43.0


From 9e83b2d706e6ba456591655402d1930d4005a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:22 +0000
Subject: [PATCH 09/62] fix: lists of nodes as edge constraints select the
 edges of all listed nodes

---
 dynetworkx/classes/impulsedigraph.py  | 16 ++++++++--------
 dynetworkx/classes/impulsegraph.py    | 16 ++++++++--------
 dynetworkx/classes/intervaldigraph.py | 14 +++++++-------
 dynetworkx/classes/intervalgraph.py   | 14 +++++++-------
 4 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index ce448f3..29508ff 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -358,14 +358,14 @@ class ImpulseDiGraph(ImpulseGraph):
                     continue
                 iedges.update([iv for u in self._succ[v] for iv in self._succ[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
-
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
+
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if ImpulseDiGraph.__overlaps_or_contains(iv, begin, end)]
 
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index e0c27c9..d847d2d 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -736,14 +736,14 @@ class ImpulseGraph(object):
                     continue
                 iedges.update([iv for u in self._adj[v] for iv in self._adj[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
-
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
+
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if ImpulseGraph.__overlaps_or_contains(iv, begin, end)]
 
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 4e82d2c..060b627 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -326,14 +326,14 @@ class IntervalDiGraph(IntervalGraph):
                     continue
                 iedges.update([iv for u in self._succ[v] for iv in self._succ[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if IntervalDiGraph.__overlaps_or_contains(iv, begin, end)]
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 642971e..2a072d1 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -826,14 +826,14 @@ class IntervalGraph(object):
                     continue
                 iedges.update([iv for u in self._adj[v] for iv in self._adj[v][u]])
 
-            # If interval is none, return
-            if begin is None and end is None:
-                return iedges
+        # If interval is none, return
+        if begin is None and end is None:
+            return iedges
 
-            # Interval filtering
-            if begin is not None and end is not None and begin > end:
-                raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
-                                    "begin: {}, end: {}.".format(begin, end))
+        # Interval filtering
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
 
         return [iv for iv in iedges if IntervalGraph.__overlaps_or_contains(iv, begin, end)]
 
-- 
2.43.0


From 320aa8bf4e2df37a75acfc169612734122a3ae72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:56 +0000
Subject: [PATCH 10/62] fix: add_nodes_from accepts tuples of any length as
 nodes

---
 dynetworkx/classes/impulsegraph.py  | 2 +-
 dynetworkx/classes/intervalgraph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index d847d2d..05de386 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -291,7 +291,7 @@ class ImpulseGraph(object):
         """
 
         for n in nodes_for_adding:
-            if isinstance(n, tuple) and isinstance(n[1], dict):
+            if isinstance(n, tuple) and len(n) == 2 and isinstance(n[1], dict):
                 self.add_node(n[0], **attr)
                 self._node[n[0]].update(n[1])
             else:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 2a072d1..b1cc864 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -365,7 +365,7 @@ class IntervalGraph(object):
         >>> G.add_nodes_from([(1, dict(size=11)), (2, {'color':'blue'})])
         """
         for n in nodes_for_adding:
-            if isinstance(n, tuple) and isinstance(n[1], dict):
+            if isinstance(n, tuple) and len(n) == 2 and isinstance(n[1], dict):
                 self.add_node(n[0], **attr)
                 self._node[n[0]].update(n[1])
             else:
-- 
2.43.0


From 11b70696d57ad135f555332542b3bd13fb382839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:31 +0000
Subject: [PATCH 11/62] fix: zero-length edges at the begin of a window without
 end

---
 dynetworkx/classes/intervaldigraph.py | 2 +-
 dynetworkx/classes/intervalgraph.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 060b627..761d179 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -1010,5 +1010,5 @@ class IntervalDiGraph(IntervalGraph):
         if begin is None:
             return iv[2] < end
         if end is None:
-            return iv[3] > begin
+            return iv[3] > begin or iv[2] == begin
         return (iv[2] < end and iv[3] > begin) or iv[2] == begin
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index b1cc864..78f215c 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1274,7 +1274,7 @@ class IntervalGraph(object):
         if begin is None:
             return iv[2] < end
         if end is None:
-            return iv[3] > begin
+            return iv[3] > begin or iv[2] == begin
         return (iv[2] < end and iv[3] > begin) or iv[2] == begin
 
     def to_networkx_graph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False,
-- 
2.43.0


From 96ccbd27e658338f45f058c4c5a9451782c429dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:41 +0000
Subject: [PATCH 12/62] fix: adding an existing impulse edge updates its
 attributes

---
 dynetworkx/classes/impulsedigraph.py | 5 +++--
 dynetworkx/classes/impulsegraph.py   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 29508ff..0c38354 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -236,8 +236,9 @@ class ImpulseDiGraph(ImpulseGraph):
 
         self._node.setdefault(u, {})
         self._node.setdefault(v, {})
-        self._pred.setdefault(u, {}).setdefault(v, {})[(u, v, t)] = attr
-        self._succ.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = attr
+        edge_attr = self._pred.setdefault(u, {}).setdefault(v, {}).setdefault((u, v, t), {})
+        edge_attr.update(attr)
+        self._succ.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = edge_attr
 
     def add_edges_from(self, ebunch_to_add, **attr):
         """Add all the edges in ebunch_to_add.
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 05de386..2edc6a7 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -573,8 +573,9 @@ class ImpulseGraph(object):
 
         self._node.setdefault(u, {})
         self._node.setdefault(v, {})
-        self._adj.setdefault(u, {}).setdefault(v, {})[(u, v, t)] = attr
-        self._adj.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = attr
+        edge_attr = self._adj.setdefault(u, {}).setdefault(v, {}).setdefault((u, v, t), {})
+        edge_attr.update(attr)
+        self._adj.setdefault(v, {}).setdefault(u, {})[(u, v, t)] = edge_attr
 
     def add_edges_from(self, ebunch_to_add, **attr):
         """Add all the edges in ebunch_to_add.
-- 
2.43.0


From aae17560effdee777271978150203b15695b5ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:56 +0000
Subject: [PATCH 13/62] fix: removing nodes, self-loops and the last edge at a
 timestamp from an ImpulseGraph

---
 dynetworkx/classes/impulsegraph.py | 42 +++++++++++++-----------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 2edc6a7..53fc150 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -499,19 +499,16 @@ class ImpulseGraph(object):
         if n not in self._node:
             return
 
+        remove_edges = []
         if begin is None and end is None:
-            self._adj.pop(n, None)
-            for v in self._adj:
-                if n in self._adj[v]:
-                    self._adj[v].pop(n, None)
-
+            for v in self._adj.get(n, {}):
+                remove_edges.extend(self._adj[n][v])
         else:
-            remove_edges = []
             for edge in self.__search_tree(begin, end, inclusive):
                 if edge[0] == n or edge[1] == n:
                     remove_edges.append(edge)
-            for edge in remove_edges:
-                self.__remove_iedge(edge)
+        for edge in remove_edges:
+            self.__remove_iedge(edge)
 
         # delete the node and its attributes if no edge left
         if n not in self._adj or len(self._adj[n]) == 0:
@@ -956,16 +953,6 @@ class ImpulseGraph(object):
         for edge in iedges_to_remove:
             self.__remove_iedge(edge)
 
-        # clean up empty dictionaries
-        if len(self._adj[u][v]) == 0:
-            self._adj[u].pop(v, None)
-        if len(self._adj[v][u]) == 0:
-            self._adj[v].pop(u, None)
-        if len(self._adj[u]) == 0:
-            self._adj.pop(u, None)
-        if len(self._adj[v]) == 0:
-            self._adj.pop(v, None)
-
     def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the degree of a specified node between time begin and end.
 
@@ -1040,13 +1027,20 @@ class ImpulseGraph(object):
         iedge : Edge Tuple (u,v,eid,t)
             Edge to be removed.
         """
-        try:
-            self.tree[iedge[2]].remove((iedge[0], iedge[1]))
-            del self._adj[iedge[0]][iedge[1]][iedge]
-            del self._adj[iedge[1]][iedge[0]][iedge]
-        except:
+        if iedge not in self._adj.get(iedge[0], {}).get(iedge[1], {}):
             return
-        print(self._adj)
+
+        self.tree[iedge[2]].remove((iedge[0], iedge[1]))
+        # clean up empty timestamp
+        if len(self.tree[iedge[2]]) == 0:
+            del self.tree[iedge[2]]
+
+        for u, v in ((iedge[0], iedge[1]), (iedge[1], iedge[0])):
+            if v in self._adj[u]:
+                self._adj[u][v].pop(iedge, None)
+                # clean up empty dictionary
+                if len(self._adj[u][v]) == 0:
+                    del self._adj[u][v]
 
     def __validate_interval(self, begin=None, end=None):
         """Returns validated begin and end.
-- 
2.43.0


From 536b909c9a2fe10a3f974752aa87842827cab737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:09 +0000
Subject: [PATCH 14/62] fix: removing nodes and the last edge at a timestamp
 from an ImpulseDiGraph

---
 dynetworkx/classes/impulsedigraph.py | 62 +++++++++++++++++++++-------
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 0c38354..7fc1a67 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -181,6 +181,40 @@ class ImpulseDiGraph(ImpulseGraph):
         self._pred.setdefault(node_for_adding, {})
         self._succ.setdefault(node_for_adding, {})
 
+    def remove_node(self, n, begin=None, end=None, inclusive=(True, False)):
+        """Remove the presence of a node n within the given interval.
+
+        Removes the presence node n and all its incoming and outgoing edges within the given interval.
+
+        Quiet if n is not in the impulse graph.
+
+        Parameters
+        ----------
+        n : node
+           A node in the graph
+        begin: int or float, optional  (default= beginning of the entire impulse graph)
+        end: int or float, optional  (default= end of the entire impulse graph)
+            Must be bigger than or equal to begin.
+        inclusive: 2-tuple boolean that determines inclusivity of begin and end
+        """
+
+        if n not in self._node:
+            return
+
+        edges = {edge for v in self._pred.get(n, {}) for edge in self._pred[n][v]}
+        edges.update(edge for u in self._succ.get(n, {}) for edge in self._succ[n][u])
+        if begin is not None or end is not None:
+            edges.intersection_update(self.__search_tree(begin, end, inclusive))
+
+        for edge in edges:
+            self.__remove_iedge(edge)
+
+        # delete the node and its attributes if no edge left
+        if len(self._pred.get(n, {})) == 0 and len(self._succ.get(n, {})) == 0:
+            self._pred.pop(n, None)
+            self._succ.pop(n, None)
+            self._node.pop(n, None)
+
     def add_edge(self, u, v, t, **attr):
         """Add an edge between u and v, at t.
 
@@ -625,16 +659,6 @@ class ImpulseDiGraph(ImpulseGraph):
         for edge in iedges_to_remove:
             self.__remove_iedge(edge)
 
-        # clean up empty dictionaries
-        if len(self._pred[u][v]) == 0:
-            self._pred[u].pop(v, None)
-        if len(self._succ[v][u]) == 0:
-            self._succ[v].pop(u, None)
-        if len(self._pred[u]) == 0:
-            self._pred.pop(u, None)
-        if len(self._succ[v]) == 0:
-            self._succ.pop(v, None)
-
     def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
         """Return the sum of in and out degree of a specified node between time begin and end.
 
@@ -930,13 +954,21 @@ class ImpulseDiGraph(ImpulseGraph):
             Edge to be removed.
         """
 
-        try:
-            self.tree[iedge[2]].remove((iedge[0], iedge[1]))
-            del self._pred[iedge[0]][iedge[1]][iedge]
-            del self._succ[iedge[1]][iedge[0]][iedge]
-        except:
+        if iedge not in self._pred.get(iedge[0], {}).get(iedge[1], {}):
             return
 
+        self.tree[iedge[2]].remove((iedge[0], iedge[1]))
+        # clean up empty timestamp
+        if len(self.tree[iedge[2]]) == 0:
+            del self.tree[iedge[2]]
+
+        self._pred[iedge[0]][iedge[1]].pop(iedge)
+        self._succ[iedge[1]][iedge[0]].pop(iedge)
+        # clean up empty dictionaries
+        if len(self._pred[iedge[0]][iedge[1]]) == 0:
+            del self._pred[iedge[0]][iedge[1]]
+            del self._succ[iedge[1]][iedge[0]]
+
     def __validate_interval(self, begin=None, end=None):
         """Returns validated begin and end.
         Raises an exception if begin is larger than end.
-- 
2.43.0


From fbfbe2d41ab86c533cbdd5210a221b65ae562c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:06 +0000
Subject: [PATCH 15/62] fix: point windows and timestamp 0 in impulse graph
 queries

---
 dynetworkx/classes/impulsedigraph.py | 50 +++++++---------------------
 dynetworkx/classes/impulsegraph.py   | 50 +++++++---------------------
 2 files changed, 24 insertions(+), 76 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 7fc1a67..61562a4 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -402,13 +402,13 @@ class ImpulseDiGraph(ImpulseGraph):
             raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
-        return [iv for iv in iedges if ImpulseDiGraph.__overlaps_or_contains(iv, begin, end)]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, (True, False))]
 
     def __edges_interval_first(self, begin, end):
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False))for u, v in self.tree[t]]
+        return list(self.__search_tree(begin, end, (True, False)))
 
     def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, True), data=False, default=None):
         """Returns a list of tuples of the ImpulseDiGraph edges.
@@ -998,9 +998,10 @@ class ImpulseDiGraph(ImpulseGraph):
        """
         begin, end = self.__validate_interval(begin, end)
 
-        if begin is not None and begin == end and begin in self.tree:
-            for edge in self.tree[begin]:
+        if begin is not None and begin == end:
+            for edge in self.tree.get(begin, ()):
                 yield (*edge, begin)
+            return
 
         for t in self.tree.irange(begin, end, inclusive=inclusive):
             for edge in self.tree[t]:
@@ -1022,40 +1023,13 @@ class ImpulseDiGraph(ImpulseGraph):
         -------
         Returns True if t is in the interval (begin,end). Otherwise False.
         """
-        if begin is None:
-            begin = float('-inf')
-        if end is None:
-            end = float('inf')
-
-        if inclusive == (True, True):
-            return begin <= t <= end
-        if inclusive == (True, False):
-            return begin <= t < end
-        if inclusive == (False, True):
-            return begin < t <= end
-        if inclusive == (False, False):
-            return begin < t < end
-
-    @staticmethod
-    def __overlaps_or_contains(iv, begin, end):
-        """Returns True if interval `iv` overlaps with begin and end.
-
-       Parameters
-       ----------
-       iv: Interval
-       begin: int or float
-            Inclusive beginning time of the node appearing in the interval graph.
-        end: int or float
-            Non-inclusive ending time of the node appearing in the interval graph.
-            Must be bigger than or equal begin.
-       """
-        if begin is None and end is None:
-            return True
-        if begin is None:
-            return iv[2] < end
-        if end is None:
-            return iv[2] >= begin
-        return (begin < iv[2] < end and iv[2]) or iv[2] == begin
+        if begin is not None and begin == end:
+            return t == begin
+        if begin is not None and (t < begin or (t == begin and not inclusive[0])):
+            return False
+        if end is not None and (t > end or (t == end and not inclusive[1])):
+            return False
+        return True
 
     @staticmethod
     def load_from_txt(path, delimiter=" ", nodetype=int, timestamptype=float, order=('u', 'v', 't'), predict=False, comments="#"):
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 53fc150..5f4e7f3 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -743,13 +743,13 @@ class ImpulseGraph(object):
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
-        return [iv for iv in iedges if ImpulseGraph.__overlaps_or_contains(iv, begin, end)]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, (True, False))]
 
     def __edges_interval_first(self, begin, end):
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
-        return [(u, v, t) for t in self.tree.irange(begin, end, inclusive=(True, False)) for u, v in self.tree[t]]
+        return list(self.__search_tree(begin, end, (True, False)))
 
     def _node_list(self, nbunch):
         """Return the nodes given by nbunch, a single node or a collection of nodes, as a list.
@@ -1071,9 +1071,10 @@ class ImpulseGraph(object):
        """
         begin, end = self.__validate_interval(begin, end)
 
-        if begin is not None and begin == end and begin in self.tree:
-            for edge in self.tree[begin]:
+        if begin is not None and begin == end:
+            for edge in self.tree.get(begin, ()):
                 yield (*edge, begin)
+            return
 
         for t in self.tree.irange(begin, end, inclusive=inclusive):
             for u, v in self.tree[t]:
@@ -1095,19 +1096,13 @@ class ImpulseGraph(object):
         -------
         Returns True if t is in the interval (begin,end). Otherwise False.
         """
-        if begin is None:
-            begin = float('-inf')
-        if end is None:
-            end = float('inf')
-
-        if inclusive == (True, True):
-            return t >= begin and t <= end
-        if inclusive == (True, False):
-            return t >= begin and t < end
-        if inclusive == (False, True):
-            return t > begin and t <= end
-        if inclusive == (False, False):
-            return t > begin and t < end
+        if begin is not None and begin == end:
+            return t == begin
+        if begin is not None and (t < begin or (t == begin and not inclusive[0])):
+            return False
+        if end is not None and (t > end or (t == end and not inclusive[1])):
+            return False
+        return True
 
     def to_networkx_graph(self, begin=None, end=None, inclusive=(True, False), multigraph=False, edge_data=False,
                           edge_timestamp_data=False, node_data=False):
@@ -1367,27 +1362,6 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def __overlaps_or_contains(iv, begin, end):
-        """Returns True if interval `iv` overlaps with begin and end.
-
-       Parameters
-       ----------
-       iv: Interval
-       begin: int or float
-            Inclusive beginning time of the node appearing in the interval graph.
-        end: int or float
-            Non-inclusive ending time of the node appearing in the interval graph.
-            Must be bigger than or equal begin.
-       """
-        if begin is None and end is None:
-            return True
-        if begin is None:
-            return iv[2] < end
-        if end is None:
-            return iv[2] >= begin
-        return (begin < iv[2] < end and iv[2]) or iv[2] == begin
-
     @staticmethod
     def from_networkx_graph(graph, timestamp='timestamp'):
         """Convert a NetworkX Graph to a ImpulseGraph.
-- 
2.43.0


From ab065c8105f055be12329b4550459751075bde60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:23 +0000
Subject: [PATCH 16/62] fix: inclusive bounds are honoured by edges and
 remove_edge of impulse graphs

---
 dynetworkx/classes/impulsedigraph.py | 28 ++++++++++++++--------------
 dynetworkx/classes/impulsegraph.py   | 20 ++++++++++----------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 61562a4..bbc3434 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -368,7 +368,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         self._model = model
 
-    def __edges_node_first(self, u_list, v_list, begin, end):
+    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
         if not isinstance(u_list, list):
             u_list = [u_list]
         if not isinstance(v_list, list):
@@ -402,15 +402,15 @@ class ImpulseDiGraph(ImpulseGraph):
             raise NetworkXError("ImpulseDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
-        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, (True, False))]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive)]
 
-    def __edges_interval_first(self, begin, end):
+    def __edges_interval_first(self, begin, end, inclusive):
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
-        return list(self.__search_tree(begin, end, (True, False)))
+        return list(self.__search_tree(begin, end, inclusive))
 
-    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, True), data=False, default=None):
+    def edges(self, u=None, v=None, begin=None, end=None, inclusive=(True, False), data=False, default=None):
         """Returns a list of tuples of the ImpulseDiGraph edges.
 
         All edges which are present within the given interval.
@@ -498,11 +498,11 @@ class ImpulseDiGraph(ImpulseGraph):
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Interval First
         elif u == [None] and v == [None]:
-            iedges = self.__edges_interval_first(begin, end)
+            iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
@@ -526,13 +526,13 @@ class ImpulseDiGraph(ImpulseGraph):
             node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
 
             if node_time < interval_time:
-                iedges = self.__edges_node_first(u, v, begin, end)
+                iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
 
         # Node First
         else:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Appending attribute data if needed
         if data is False:
@@ -652,14 +652,14 @@ class ImpulseDiGraph(ImpulseGraph):
 
         else:
             for iv in self._pred[u][v]:
-                if self.__in_interval(iv[2], begin, end):
+                if self.__in_interval(iv[2], begin, end, inclusive=inclusive):
                     iedges_to_remove.append(iv)
 
         # removing found iedges
         for edge in iedges_to_remove:
             self.__remove_iedge(edge)
 
-    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the sum of in and out degree of a specified node between time begin and end.
 
         Parameters
@@ -724,7 +724,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return sorted(output)
 
-    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def in_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the in-degree of a specified node between time begin and end.
 
         Parameters
@@ -791,7 +791,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
         return output
 
-    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, True)):
+    def out_degree(self, node=None, begin=None, end=None, delta=False, inclusive=(True, False)):
         """Return the out-degree of a specified node between time begin and end.
 
         Parameters
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 5f4e7f3..3f09d33 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -713,7 +713,7 @@ class ImpulseGraph(object):
 
         self._model = model
 
-    def __edges_node_first(self, u_list, v_list, begin, end):
+    def __edges_node_first(self, u_list, v_list, begin, end, inclusive):
         # Node filtering
         iedges = set()
         for u, v in product(u_list, v_list):
@@ -743,13 +743,13 @@ class ImpulseGraph(object):
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
 
-        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, (True, False))]
+        return [iv for iv in iedges if self.__in_interval(iv[2], begin, end, inclusive)]
 
-    def __edges_interval_first(self, begin, end):
+    def __edges_interval_first(self, begin, end, inclusive):
         if begin is not None and end is not None and begin > end:
             raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
                                 "begin: {}, end: {}.".format(begin, end))
-        return list(self.__search_tree(begin, end, (True, False)))
+        return list(self.__search_tree(begin, end, inclusive))
 
     def _node_list(self, nbunch):
         """Return the nodes given by nbunch, a single node or a collection of nodes, as a list.
@@ -855,11 +855,11 @@ class ImpulseGraph(object):
 
         # Return All
         if u == [None] and v == [None] and begin is None and end is None:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Interval First
         elif u == [None] and v == [None]:
-            iedges = self.__edges_interval_first(begin, end)
+            iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
         elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
@@ -883,13 +883,13 @@ class ImpulseGraph(object):
             node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
-                iedges = self.__edges_node_first(u, v, begin, end)
+                iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
 
         # Node First
         else:
-            iedges = self.__edges_node_first(u, v, begin, end)
+            iedges = self.__edges_node_first(u, v, begin, end, inclusive)
 
         # Appending attribute data if needed
         if data is False:
@@ -946,7 +946,7 @@ class ImpulseGraph(object):
 
         else:
             for iv in self._adj[u][v]:
-                if self.__in_interval(iv[2], begin, end):
+                if self.__in_interval(iv[2], begin, end, inclusive=inclusive):
                     iedges_to_remove.append(iv)
 
         # removing found iedges
-- 
2.43.0


From 0142781ba94f422a4869f91db1b5aa5ca7931977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:07 +0000
Subject: [PATCH 17/62] fix: delta degrees count zero-length edges at the begin
 of the window once

---
 dynetworkx/classes/intervaldigraph.py | 6 +++---
 dynetworkx/classes/intervalgraph.py   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 761d179..28449e1 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -710,7 +710,7 @@ class IntervalDiGraph(IntervalGraph):
         for time in sd:
             for edge in sd[time]:
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
-                if time[0] != begin:
+                if time[0] != begin or time[1] == -1:
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
@@ -788,7 +788,7 @@ class IntervalDiGraph(IntervalGraph):
         for time in sd:
             for edge in sd[time]:
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
-                if time[0] != begin:
+                if time[0] != begin or time[1] == -1:
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
@@ -866,7 +866,7 @@ class IntervalDiGraph(IntervalGraph):
         for time in sd:
             for edge in sd[time]:
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
-                if time[0] != begin:
+                if time[0] != begin or time[1] == -1:
                     current_degree += time[1]
                     print(time, begin, edge, current_degree)
                 output.append((time[0], current_degree))
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 78f215c..a36f4d4 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1163,7 +1163,7 @@ class IntervalGraph(object):
         for time in sd:
             for edge in sd[time]:
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
-                if time[0] != begin:
+                if time[0] != begin or time[1] == -1:
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-- 
2.43.0


From 8713aa7a5c5a75d02c928237064fd734d9bef799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:00 +0000
Subject: [PATCH 18/62] fix: delta degrees of empty interval graphs and of
 windows beyond the graph

---
 dynetworkx/classes/intervaldigraph.py | 15 +++++++++++++++
 dynetworkx/classes/intervalgraph.py   |  5 +++++
 2 files changed, 20 insertions(+)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 28449e1..a1e0654 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -682,11 +682,16 @@ class IntervalDiGraph(IntervalGraph):
                    len(self.edges(v=node, begin=begin, end=end))
 
         # delta == True, return list of changes
+        omitted = begin is None or end is None
         if begin is None:
             begin = self.tree.begin
         if end is None:
             end = self.tree.end
 
+        # the window lies outside of the interval of the graph
+        if omitted and begin > end:
+            return []
+
         current_degree = self.degree(node, begin=begin, end=begin)
         sd = SortedDict()
         output = []
@@ -767,11 +772,16 @@ class IntervalDiGraph(IntervalGraph):
             return len(self.edges(v=node, begin=begin, end=end))
 
         # delta == True, return list of changes
+        omitted = begin is None or end is None
         if begin == None:
             begin = self.tree.begin
         if end == None:
             end = self.tree.end
 
+        # the window lies outside of the interval of the graph
+        if omitted and begin > end:
+            return []
+
         current_degree = self.in_degree(node, begin=begin, end=begin)
         sd = SortedDict()
         output = []
@@ -845,11 +855,16 @@ class IntervalDiGraph(IntervalGraph):
             return len(self.edges(u=node, begin=begin, end=end))
 
         # delta == True, return list of changes
+        omitted = begin is None or end is None
         if begin == None:
             begin = self.tree.begin
         if end == None:
             end = self.tree.end
 
+        # the window lies outside of the interval of the graph
+        if omitted and begin > end:
+            return []
+
         current_degree = self.out_degree(node, begin=begin, end=begin)
         sd = SortedDict()
         output = []
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index a36f4d4..5840741 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1142,11 +1142,16 @@ class IntervalGraph(object):
             return len(self.edges(u=node, begin=begin, end=end))
 
         # delta == True, return list of changes
+        omitted = begin is None or end is None
         if begin == None:
             begin = self.tree.begin
         if end == None:
             end = self.tree.end
 
+        # the window lies outside of the interval of the graph
+        if omitted and begin > end:
+            return []
+
         current_degree = self.degree(node, begin=begin, end=begin)
         sd = SortedDict()
         output = []
-- 
2.43.0


From 08b384dfe7739b9321b5844229a83daa9b7d6c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:33 +0000
Subject: [PATCH 19/62] fix: delta degrees of an IntervalDiGraph list
 simultaneous changes in order

---
 dynetworkx/classes/intervaldigraph.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index a1e0654..90bd66b 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -719,7 +719,7 @@ class IntervalDiGraph(IntervalGraph):
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def in_degree(self, node=None, begin=None, end=None, delta=False):
         """Return the in-degree of a specified node between time begin and end.
@@ -802,7 +802,7 @@ class IntervalDiGraph(IntervalGraph):
                     current_degree += time[1]
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def out_degree(self, node=None, begin=None, end=None, delta=False):
         """Return the out-degree of a specified node between time begin and end.
@@ -883,10 +883,9 @@ class IntervalDiGraph(IntervalGraph):
                 # iterate through SortedDict, only advancing current degree if edge was not counted on init
                 if time[0] != begin or time[1] == -1:
                     current_degree += time[1]
-                    print(time, begin, edge, current_degree)
                 output.append((time[0], current_degree))
 
-        return sorted(output)
+        return output
 
     def to_networkx_graph(self, begin, end, multigraph=False, edge_data=False, edge_interval_data=False, node_data=False):
         """Return a networkx DiGraph or MultiDiGraph which includes all the nodes and
-- 
2.43.0


From 1eab8c1184a3d3cb5f81ed3e3d92f7210e20c134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:10 +0000
Subject: [PATCH 20/62] fix: delta degrees of an ImpulseDiGraph honour the
 window and inclusive

---
 dynetworkx/classes/impulsedigraph.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index bbc3434..6a017a0 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -713,9 +713,9 @@ class ImpulseDiGraph(ImpulseGraph):
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(u=node, begin=begin, end=end, inclusive=(True, False)):
+        for edge in self.edges(u=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
-        for edge in self.edges(v=node, begin=begin, end=end, inclusive=(True, False)):
+        for edge in self.edges(v=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -773,16 +773,11 @@ class ImpulseDiGraph(ImpulseGraph):
             return len(self.edges(v=node, begin=begin, end=end, inclusive=inclusive))
 
         # delta == True, return list of changes
-        if begin == None:
-            begin = list(self.tree.keys())[0]
-        if end == None:
-            end = list(self.tree.keys())[-1]
-
         d = {}
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(v=node, begin=begin, end=end, inclusive=(True, True)):
+        for edge in self.edges(v=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
@@ -844,7 +839,7 @@ class ImpulseDiGraph(ImpulseGraph):
         output = []
 
         # for each edge determine if the begin and/or end value is in specified time period
-        for edge in self.edges(u=node, begin=begin, end=end, inclusive=(True, True)):
+        for edge in self.edges(u=node, begin=begin, end=end, inclusive=inclusive):
             d.setdefault(edge[2], []).append((edge[0], edge[1]))
 
         # for each time in Dict add to output list the len of each value
-- 
2.43.0


From 165e6218ecf0ec101067462c11ee56dbca21616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:28 +0000
Subject: [PATCH 21/62] fix: static subgraphs and snapshots of an
 IntervalDiGraph

---
 dynetworkx/classes/intervaldigraph.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 90bd66b..0aa31a2 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -961,17 +961,17 @@ class IntervalDiGraph(IntervalGraph):
             G = DiGraph()
 
         if edge_data and edge_interval_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1],
-                              dict(self._pred[iedge.data[0]][iedge], begin=iedge.begin, end=iedge.end))
+            G.add_edges_from((iedge[0], iedge[1],
+                              dict(self._pred[iedge[0]][iedge[1]][iedge], begin=iedge[2], end=iedge[3]))
                              for iedge in iedges)
         elif edge_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1], self._pred[iedge.data[0]][iedge].copy())
+            G.add_edges_from((iedge[0], iedge[1], self._pred[iedge[0]][iedge[1]][iedge].copy())
                              for iedge in iedges)
         elif edge_interval_data:
-            G.add_edges_from((iedge.data[0], iedge.data[1], {'begin': iedge.begin, 'end': iedge.end})
+            G.add_edges_from((iedge[0], iedge[1], {'begin': iedge[2], 'end': iedge[3]})
                              for iedge in iedges)
         else:
-            G.add_edges_from((iedge.data[0], iedge.data[1]) for iedge in iedges)
+            G.add_edges_from((iedge[0], iedge[1]) for iedge in iedges)
 
         # include node attributes
         if node_data:
-- 
2.43.0


From 984e8eba7effaafb9f2cb4b242efee372eaa8fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:42 +0000
Subject: [PATCH 22/62] fix: subgraphs of an ImpulseGraph with edge and
 timestamp data

---
 dynetworkx/classes/impulsegraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 3f09d33..7903771 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1177,7 +1177,7 @@ class ImpulseGraph(object):
             G = Graph()
 
         if edge_data and edge_timestamp_data:
-            G.add_edges_from((iedge[0], iedge[1], dict(self._adj[iedge[0]][iedge], timestamp=iedge[2]))
+            G.add_edges_from((iedge[0], iedge[1], dict(self._adj[iedge[0]][iedge[1]][iedge], timestamp=iedge[2]))
                              for iedge in iedges)
         elif edge_data:
             G.add_edges_from((iedge[0], iedge[1], self._adj[iedge[0]][iedge[1]][iedge])
-- 
2.43.0


From 75590687bbcf2556c95cb734b075bed8b583646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:56 +0000
Subject: [PATCH 23/62] fix: reject snapshots of length 0

---
 dynetworkx/classes/impulsegraph.py  | 4 ++--
 dynetworkx/classes/intervalgraph.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 7903771..c881010 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1272,9 +1272,9 @@ class ImpulseGraph(object):
 
         begin, end = self.interval()
         if type(length_of_snapshots) is int or type(length_of_snapshots) is float:
-            if length_of_snapshots < 0:
+            if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
-                                    "{0} was passed.".format(number_of_snapshots))
+                                    "{0} was passed.".format(length_of_snapshots))
             number_of_snapshots = (end - begin) // length_of_snapshots
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 5840741..701ccdb 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1450,9 +1450,9 @@ class IntervalGraph(object):
 
         begin, end = self.interval()
         if type(length_of_snapshots) is int or type(length_of_snapshots) is float:
-            if length_of_snapshots < 0:
+            if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
-                                    "{0} was passed.".format(number_of_snapshots))
+                                    "{0} was passed.".format(length_of_snapshots))
             number_of_snapshots = (end - begin) // length_of_snapshots
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
-- 
2.43.0


From 40f455b1ec10bb9e8a0218c1e101321d3018c86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:13 +0000
Subject: [PATCH 24/62] fix: fractional lengths of snapshots

---
 dynetworkx/classes/impulsegraph.py  | 2 +-
 dynetworkx/classes/intervalgraph.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index c881010..c1d34ad 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1275,7 +1275,7 @@ class ImpulseGraph(object):
             if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
                                     "{0} was passed.".format(length_of_snapshots))
-            number_of_snapshots = (end - begin) // length_of_snapshots
+            number_of_snapshots = int((end - begin) // length_of_snapshots)
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 701ccdb..df51a2b 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1453,7 +1453,7 @@ class IntervalGraph(object):
             if length_of_snapshots <= 0:
                 raise NetworkXError("IntervalGraph: length of snapshots must be bigger than 0. "
                                     "{0} was passed.".format(length_of_snapshots))
-            number_of_snapshots = (end - begin) // length_of_snapshots
+            number_of_snapshots = int((end - begin) // length_of_snapshots)
             if (end - begin) % length_of_snapshots != 0:
                 number_of_snapshots += 1
 
-- 
2.43.0


From d52a6aa3a7f02b53f4308cb41aea4682675bc604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:15 +0000
Subject: [PATCH 25/62] fix: the last snapshot of an impulse graph includes its
 last timestamp despite rounding

---
 dynetworkx/classes/impulsegraph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index c1d34ad..9a08355 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1289,11 +1289,14 @@ class ImpulseGraph(object):
         snapshots = []
         inclusive = (True, False)
         for i in range(number_of_snapshots):
+            snapshot_end = begin + length_of_snapshots * (i + 1)
             if i == number_of_snapshots - 1:
                 inclusive = (True, True)
+                # rounding must not leave out the last timestamp
+                snapshot_end = max(snapshot_end, end)
             snapshots.append(
                 self.to_subgraph(begin + length_of_snapshots * i,
-                                 begin + length_of_snapshots * (i + 1), inclusive=inclusive,
+                                 snapshot_end, inclusive=inclusive,
                                  multigraph=multigraph, edge_data=edge_data, edge_timestamp_data=edge_timestamp_data,
                                  node_data=node_data))
         if return_length:
-- 
2.43.0


From cb1ac4f94e6d871c763123f212c3f1548636dacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:44 +0000
Subject: [PATCH 26/62] fix: no empty-length snapshots where several edges end
 or begin together

---
 dynetworkx/classes/intervalgraph.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index df51a2b..0a14a11 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -4,7 +4,7 @@ from networkx.exception import NetworkXError
 from dynetworkx.classes.intervaltree import IntervalTree
 from networkx.classes.multigraph import MultiGraph
 from networkx.classes.reportviews import NodeDataView
-from sortedcontainers import SortedList, SortedDict
+from sortedcontainers import SortedSet, SortedDict
 import random
 import math
 from timeit import default_timer as timer
@@ -1543,7 +1543,7 @@ class IntervalGraph(object):
         # into a snapshot graph. Snapshots' lengths are variable and each snapshot represents a change in a series edges
         # E.g: 2 edges with time intervals [(2,5), (3,7)] will be split into 3 snapshots [(2,3), (3,5), (5, 7)]
 
-        time = SortedList()  # this contains a list of sorted unique time stamp which will be used as "end" timestamp
+        time = SortedSet()  # this contains a list of sorted unique time stamp which will be used as "end" timestamp
         # for each slice in following iterations
         # We use a moving window specified by "begin" and "end" to slice each snapshots.
         begin = None
@@ -1580,6 +1580,7 @@ class IntervalGraph(object):
                             break
 
                     end = node.low
+                    time.discard(end)  # the next snapshot begins at "end"
                     time.add(node.high)
                     G.insert(graph=self.to_subgraph(begin=begin, end=end, multigraph=multigraph, edge_data=edge_data,
                                                     edge_interval_data=edge_interval_data, node_data=node_data),
-- 
2.43.0


From 28a5b0ff518a5636d3d1805af46cad91ff10774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:13 +0000
Subject: [PATCH 27/62] fix: snapshot selection by no positions and with a
 window bound of 0

---
 dynetworkx/classes/snapshotgraph.py | 56 ++++++++++++++---------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 7901bc5..218ba74 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -230,9 +230,9 @@ class SnapshotGraph(object):
         subgraph = SnapshotGraph()
         subgraph.graph = self.graph
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for key, snapshot in self._get(sbunch=sbunch):
                 subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])
         else:
@@ -277,9 +277,9 @@ class SnapshotGraph(object):
         # returns a list of degrees for each graph snapshot in snapshots
         # use generator to create list of degrees
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             if nbunch:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(sbunch=sbunch)]
             else:
@@ -319,9 +319,9 @@ class SnapshotGraph(object):
         """
         # returns a list of the number of nodes in each graph in the range
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.number_of_nodes() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.number_of_nodes() for graph in self._get(start=start, end=end)]
@@ -355,9 +355,9 @@ class SnapshotGraph(object):
         """
         # returns a list of the order of the graph in the range
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.order() for graph in self._get(sbunch=sbunch)]
         else:
             return [g.order() for g in self._get(start=start, end=end)]
@@ -392,9 +392,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.has_node(n) for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.has_node(n) for graph in self._get(start=start, end=end)]
@@ -428,9 +428,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.is_multigraph() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.is_multigraph() for graph in self._get(start=start, end=end)]
@@ -464,9 +464,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.is_directed() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.is_directed() for graph in self._get(start=start, end=end)]
@@ -498,9 +498,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.to_directed() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.to_directed() for graph in self._get(start=start, end=end)]
@@ -532,9 +532,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.to_undirected() for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.to_undirected() for graph in self._get(start=start, end=end)]
@@ -571,9 +571,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [graph.size(weight=weight) for graph in self._get(sbunch=sbunch)]
         else:
             return [graph.size(weight=weight) for graph in self._get(start=start, end=end)]
@@ -620,9 +620,9 @@ class SnapshotGraph(object):
         else:
             graphs = self.snapshots.values()
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:  # if retrieve by indexes
+        elif sbunch is not None:  # if retrieve by indexes
             for index in sbunch:
                 yield graphs[index]
         else:  # if retrieve by interval
@@ -734,9 +734,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for graph in self._get(sbunch=sbunch):
                 graph.add_nodes_from(nbunch, **attrs)
         else:
@@ -792,9 +792,9 @@ class SnapshotGraph(object):
 
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             for graph in self._get(sbunch=sbunch):
                 graph.add_edges_from(ebunch, **attrs)
         else:
@@ -930,9 +930,9 @@ class SnapshotGraph(object):
         >>> G.compute_network_statistic(nx.algorithms.centrality.degree_centrality)
         """
 
-        if sbunch and (start or end):
+        if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
-        elif sbunch:
+        elif sbunch is not None:
             return [nx_statistic_function(graph, **kwargs) for graph in self._get(sbunch=sbunch)]
         else:
             return [nx_statistic_function(graph, **kwargs) for graph in self._get(start=start, end=end)]
-- 
2.43.0


From c4db3cfe54a736171a18ff079e03a7f0a22bee12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:27 +0000
Subject: [PATCH 28/62] fix: refuse a snapshot with both a time and an interval
 bound of 0

---
 dynetworkx/classes/snapshotdigraph.py | 2 +-
 dynetworkx/classes/snapshotgraph.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index 2e5ee02..e9636cf 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -39,7 +39,7 @@ class SnapshotDiGraph(SnapshotGraph):
         else:
             g = graph
 
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.insert(g, time=time)
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 218ba74..62a4d35 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -148,7 +148,7 @@ class SnapshotGraph(object):
         >>> G.insert(nxG1, start=0, end=3)
 
         """
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.snapshots.update({(time, time): graph})
@@ -187,7 +187,7 @@ class SnapshotGraph(object):
         else:
             g = graph
 
-        if time is not None and (start or end):
+        if time is not None and (start is not None or end is not None):
             raise ValueError('Time and (start or end) cannot both be specified.')
         elif time is not None:
             self.insert(g, time=time)
-- 
2.43.0


From e0e98614ebb06b68f39b6f7b2e573ea74bc2b4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:41 +0000
Subject: [PATCH 29/62] fix: graphs without nodes can be added as snapshots

---
 dynetworkx/classes/snapshotdigraph.py | 2 +-
 dynetworkx/classes/snapshotgraph.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index e9636cf..e5985b0 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -30,7 +30,7 @@ class SnapshotDiGraph(SnapshotGraph):
         >>> G = dnx.SnapshotGraph()
         >>> G.add_snapshot([(1, 4), (1, 3)])
         """
-        if not graph:
+        if graph is None:
             if multi is True:
                 g = MultiDiGraph()
             else:
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 62a4d35..c11fcab 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -181,7 +181,7 @@ class SnapshotGraph(object):
         >>> G = dnx.SnapshotGraph()
         >>> G.add_snapshot([(1, 4), (1, 3)], start=0, end=3)
         """
-        if not graph:
+        if graph is None:
             g = Graph()
             g.add_edges_from(ebunch)
         else:
-- 
2.43.0


From 30b2b44bc386a45938356c196c72cdbbfc5d65e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:53 +0000
Subject: [PATCH 30/62] fix: snapshot degrees of node 0 and of no nodes

---
 dynetworkx/classes/snapshotgraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index c11fcab..5ce06cf 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -280,12 +280,12 @@ class SnapshotGraph(object):
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch is not None:
-            if nbunch:
+            if nbunch is not None:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(sbunch=sbunch)]
             else:
                 return [graph.degree(graph, weight=weight) for graph in self._get(sbunch=sbunch)]
         else:
-            if nbunch:
+            if nbunch is not None:
                 return [graph.degree(nbunch, weight=weight) for graph in self._get(start=start, end=end)]
             else:
                 return [graph.degree(graph, weight=weight) for graph in self._get(start=start, end=end)]
-- 
2.43.0


From 1fad4a4f470243fd6379f711b8af55544a59d2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:06 +0000
Subject: [PATCH 31/62] fix: subgraphs of snapshots given by position, and of a
 SnapshotDiGraph

---
 dynetworkx/classes/snapshotgraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 5ce06cf..2b9c592 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -227,13 +227,13 @@ class SnapshotGraph(object):
         [(4, 6, {})]
         """
 
-        subgraph = SnapshotGraph()
+        subgraph = self.__class__()
         subgraph.graph = self.graph
 
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch is not None:
-            for key, snapshot in self._get(sbunch=sbunch):
+            for key, snapshot in self._get(sbunch=sbunch, include_interval=True):
                 subgraph.add_snapshot(graph=snapshot.subgraph(nbunch), start=key[0], end=key[1])
         else:
             for key, snapshot in self._get(start=start, end=end, include_interval=True):
-- 
2.43.0


From 3dc8a35e34cf2628db458c689388e61c232b77ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:41 +0000
Subject: [PATCH 32/62] fix: snapshot windows that begin inside a snapshot or a
 gap, and splitting at their bounds

---
 dynetworkx/classes/snapshotgraph.py | 41 +++++++++++------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 2b9c592..af39a37 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -626,36 +626,27 @@ class SnapshotGraph(object):
             for index in sbunch:
                 yield graphs[index]
         else:  # if retrieve by interval
-            if start is None:
-                min_idx = 0
-            else:
-                min_idx = self.snapshots.bisect_left((start,))
-
-                # Decrease 1 index if start is in the middle of an interval
-                # Eg: if Keys = [(2,5)(5,6)], start=3 won't retrieve (2,5) as we want,
-                # therefore, decrease 1 index to include (2,5). If start=5, then we won't need to change
-                if min_idx > 0 and start < self.snapshots.keys()[min_idx][0]:
-                    if split_overlaps:
-                        # Eg: if Keys = [(2,5)(5,6)] and start=3, split (2,5) into (2,3) and (3,5)
-                        key, g = self.snapshots.popitem(min_idx - 1)
-                        self.insert(g, key[0], start)
-                        self.insert(copy.deepcopy(g), start, key[1])
-                    else:
-                        min_idx -= 1
+            if split_overlaps:
+                # Split the snapshots if 'start' or 'end' is in the middle of their interval
+                # Eg: if Keys = [(2,5)(5,9)], start=3 and end=7, split (2,5) into (2,3) and (3,5),
+                # and split (5,9) into (5,7) and (7,9)
+                for time in (start, end):
+                    for key in list(self.snapshots.keys()):
+                        if time is not None and key[0] < time < key[1]:
+                            g = self.snapshots.pop(key)
+                            self.insert(g, key[0], time)
+                            self.insert(copy.deepcopy(g), time, key[1])
 
             if end is None:
                 max_idx = len(self.snapshots)
             else:
                 max_idx = self.snapshots.bisect_left((end,))
-                # Split the snapshot if 'end' is in the middle of an interval
-                # Eg: if Keys = [(2,5)(5,9)] and end=7, split (5,9) into (5,7) and (7,9)
-                if split_overlaps and max_idx < len(self.snapshots) and end < self.snapshots.keys()[max_idx][1]:
-                    key, g = self.snapshots.popitem(max_idx)
-                    self.insert(g, key[0], end)
-                    self.insert(copy.deepcopy(g), end, key[1])
-
-            for graph in graphs[min_idx: max_idx]:
-                yield graph
+
+            for key, graph in self.snapshots.items()[:max_idx]:
+                # include snapshots which begin before start only if start is in the middle of their interval
+                # Eg: if Keys = [(2,5)(5,6)], start=3 will retrieve (2,5), start=5 won't.
+                if start is None or start <= key[0] or start < key[1]:
+                    yield (key, graph) if include_interval else graph
 
     def get(self, sbunch=None, start=None, end=None):
         """Returns a list of graphs specified in sbunch. Interface function for users.
-- 
2.43.0


From c2cc9820528135f9c156f3a67bacee1211901024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:56 +0000
Subject: [PATCH 33/62] fix: blank lines and lines with only a comment in
 snapshot graph files

---
 dynetworkx/classes/snapshotgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index af39a37..9e9e504 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -834,7 +834,7 @@ class SnapshotGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 p = min(line.find(start), line.find(end))
-- 
2.43.0


From 2b84ec98d3c1bc5e2add911a1c41a217523749da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:08 +0000
Subject: [PATCH 34/62] fix: snapshot graphs are loaded with numeric adjacency
 matrices

---
 dynetworkx/classes/snapshotgraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 9e9e504..16f1678 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -861,7 +861,7 @@ class SnapshotGraph(object):
                 for row in line.split(delimiter):
                     matrix.append(row.split(' '))
 
-                g = from_numpy_array(np.array(matrix))
+                g = from_numpy_array(np.array(matrix, dtype=float))
                 sg.insert(g, start=interval[0], end=interval[1])
 
         return sg
-- 
2.43.0


From b366096c1c266d2d6d9a448a7801d4dd4acbd879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:52 +0000
Subject: [PATCH 35/62] fix: SnapshotDiGraph.load_from_txt keeps directions

---
 dynetworkx/classes/snapshotdigraph.py |  2 ++
 dynetworkx/classes/snapshotgraph.py   | 10 ++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/snapshotdigraph.py b/dynetworkx/classes/snapshotdigraph.py
index e5985b0..031949b 100644
--- a/dynetworkx/classes/snapshotdigraph.py
+++ b/dynetworkx/classes/snapshotdigraph.py
@@ -5,6 +5,8 @@ from dynetworkx.classes.snapshotgraph import SnapshotGraph
 
 class SnapshotDiGraph(SnapshotGraph):
 
+    _graph_class = DiGraph  # class of the snapshots loaded from text
+
     def add_snapshot(self, ebunch=None, graph=None, start=None, end=None, time=None, multi=False):
         """Add a snapshot with a bunch of edge values.
 
diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 16f1678..66976b6 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -6,6 +6,8 @@ import copy
 
 
 class SnapshotGraph(object):
+    _graph_class = Graph  # class of the snapshots loaded from text
+
     def __init__(self, **attr):
         self.graph = {}
         self.graph.update(attr)
@@ -792,8 +794,8 @@ class SnapshotGraph(object):
             for graph in self._get(start=start, end=end, split_overlaps=True):
                 graph.add_edges_from(ebunch, **attrs)
 
-    @staticmethod
-    def load_from_txt(path, delimiter=";", comments="#", start='start', end='end'):
+    @classmethod
+    def load_from_txt(cls, path, delimiter=";", comments="#", start='start', end='end'):
         """Read snapshot graph in from path.
            Every line in the file must be an adjacency matrix, with rows separated by delimiter.
 
@@ -827,7 +829,7 @@ class SnapshotGraph(object):
         if delimiter == ' ' or delimiter == '\n':
             raise ValueError("Delimiter cannot be " + delimiter + ".")
 
-        sg = SnapshotGraph()
+        sg = cls()
 
         with open(path, 'r') as file:
             for line in file:
@@ -861,7 +863,7 @@ class SnapshotGraph(object):
                 for row in line.split(delimiter):
                     matrix.append(row.split(' '))
 
-                g = from_numpy_array(np.array(matrix, dtype=float))
+                g = from_numpy_array(np.array(matrix, dtype=float), create_using=cls._graph_class)
                 sg.insert(g, start=interval[0], end=interval[1])
 
         return sg
-- 
2.43.0


From 94204f2d8f0ec62a8b5d9dab6be13fdcd5963dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:57 +0000
Subject: [PATCH 36/62] fix: blank lines and lines with only a comment in
 interval and impulse graph files

---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 dynetworkx/classes/impulsegraph.py   | 2 +-
 dynetworkx/classes/intervalgraph.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 6a017a0..75d6a5c 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1091,7 +1091,7 @@ class ImpulseDiGraph(ImpulseGraph):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 line = re.split(delimiter+'+', line.strip())
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 9a08355..d23587c 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1469,7 +1469,7 @@ class ImpulseGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 line = line.rstrip().split(delimiter)
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 0a14a11..a4133d3 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1773,7 +1773,7 @@ class IntervalGraph(object):
                 p = line.find(comments)
                 if p >= 0:
                     line = line[:p]
-                if not len(line):
+                if not line.strip():
                     continue
 
                 line = line.rstrip().split(delimiter)
-- 
2.43.0


From 4300fcea18ca6ef6c16988d822fd9a3b253c3508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:09 +0000
Subject: [PATCH 37/62] fix: loading attributes of edges with a duration

---
 dynetworkx/classes/intervalgraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index a4133d3..bf40c67 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1791,7 +1791,8 @@ class IntervalGraph(object):
 
                 edgedata = {}
                 try:
-                    for data in line[4:]:
+                    # a duration in the order is not a column
+                    for data in line[4 if 'begin' in order and 'end' in order else 3:]:
                         key, value = data.split('=')
                         try:
                             value = float(value)
-- 
2.43.0


From 231d23fbf16679da54b9f4303f534b18156638cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:23 +0000
Subject: [PATCH 38/62] fix: merging edges while loading from text

---
 dynetworkx/classes/intervalgraph.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index bf40c67..be23ad9 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1823,13 +1823,10 @@ class IntervalGraph(object):
 
                 if merge[0]:
                     for edge, edge_data in G.edges(u, v, begin - merge[1] - 1, end + merge[1] + 1, data=True):
-                        if edge_data != edgedata:
-                            G.add_edge(u, v, begin, end ** edgedata)
-                        else:
-                            begin = min(begin, edge[0])
-                            end = max(end, edge[1])
-                            G.remove_edge(u, v, edge[0], edge[1])
-                            G.add_edge(u, v, begin, end, **edgedata)
+                        if edge_data == edgedata:
+                            begin = min(begin, edge[2])
+                            end = max(end, edge[3])
+                            G.remove_edge(edge[0], edge[1], edge[2], edge[3], overlapping=False)
 
                 G.add_edge(u, v, begin, end, **edgedata)
 
-- 
2.43.0


From 5910f14e94a645b433e58a8fca502519ca6d9e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:37 +0000
Subject: [PATCH 39/62] fix: loading integer nodes connected to string nodes

---
 dynetworkx/classes/impulsedigraph.py | 3 +++
 dynetworkx/classes/impulsegraph.py   | 3 +++
 dynetworkx/classes/intervalgraph.py  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 75d6a5c..9d486cb 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1119,6 +1119,9 @@ class ImpulseDiGraph(ImpulseGraph):
                 else:
                     try:
                         u = int(u)
+                    except:
+                        pass
+                    try:
                         v = int(v)
                     except:
                         pass
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index d23587c..871fe41 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1497,6 +1497,9 @@ class ImpulseGraph(object):
                 else:
                     try:
                         u = int(u)
+                    except:
+                        pass
+                    try:
                         v = int(v)
                     except:
                         pass
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index be23ad9..7c8d9c2 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1811,6 +1811,9 @@ class IntervalGraph(object):
                 else:
                     try:
                         u = int(u)
+                    except:
+                        pass
+                    try:
                         v = int(v)
                     except:
                         pass
-- 
2.43.0


From 2c9be68bbe7e66f17493e5383ddba8dfe967f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:52 +0000
Subject: [PATCH 40/62] fix: delimiters of ImpulseDiGraph files are not regular
 expressions

---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 9d486cb..fd1facb 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1094,7 +1094,7 @@ class ImpulseDiGraph(ImpulseGraph):
                 if not line.strip():
                     continue
 
-                line = re.split(delimiter+'+', line.strip())
+                line = re.split('(?:' + re.escape(delimiter) + ')+', line.strip())
 
                 u = line[order.index('u')]
                 v = line[order.index('v')]
-- 
2.43.0


From e5cd8cdc53d09091b1fd068d1b09f2c48ac38cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:31 +0000
Subject: [PATCH 41/62] fix: loading and converting into an IntervalDiGraph or
 ImpulseDiGraph gives directed graphs

---
 dynetworkx/classes/impulsegraph.py  |  6 +++---
 dynetworkx/classes/intervalgraph.py | 18 +++++++++---------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 871fe41..16d81cb 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1365,8 +1365,8 @@ class ImpulseGraph(object):
 
         return G
 
-    @staticmethod
-    def from_networkx_graph(graph, timestamp='timestamp'):
+    @classmethod
+    def from_networkx_graph(cls, graph, timestamp='timestamp'):
         """Convert a NetworkX Graph to a ImpulseGraph.
 
         Parameters
@@ -1391,7 +1391,7 @@ class ImpulseGraph(object):
         ig = ImpulseGraph.from_networkx_graph(graph)
       """
 
-        G = ImpulseGraph()
+        G = cls()
 
         for edge in graph.edges(data=True):
             attr = {}
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 7c8d9c2..a3e28d7 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1604,8 +1604,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def from_snapshot_graph(snapshot_graph, begin=0, period=1):
+    @classmethod
+    def from_snapshot_graph(cls, snapshot_graph, begin=0, period=1):
         """Convert a SnapshotGraph to a IntervalGraph.
 
         Parameters
@@ -1633,7 +1633,7 @@ class IntervalGraph(object):
         >>> sg.add_edges_from([(8,9)],weight=1)
         >>> ig = IntervalGraph.from_snapshot_graph(sg,0,1)
         """
-        G = IntervalGraph()
+        G = cls()
         edge_dict = {}
 
         for snapshot in snapshot_graph.get():
@@ -1657,8 +1657,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def from_networkx_graph(graph, begin='begin', end='end'):
+    @classmethod
+    def from_networkx_graph(cls, graph, begin='begin', end='end'):
         """Convert a NetworkX Graph to a IntervalGraph.
 
         Parameters
@@ -1686,7 +1686,7 @@ class IntervalGraph(object):
         ig = IntervalGraph.from_networkx_graph(graph)
       """
 
-        G = IntervalGraph()
+        G = cls()
 
         for edge in graph.edges(data=True):
             attr = {}
@@ -1699,8 +1699,8 @@ class IntervalGraph(object):
 
         return G
 
-    @staticmethod
-    def load_from_txt(path, delimiter=" ", nodetype=int, intervaltype=float, order=('u', 'v', 'begin', 'end'),
+    @classmethod
+    def load_from_txt(cls, path, delimiter=" ", nodetype=int, intervaltype=float, order=('u', 'v', 'begin', 'end'),
                       merge=(False, 0), predict=False, comments="#"):
         """Read interval graph in from path.
            Both interval times must be integers or floats.
@@ -1759,7 +1759,7 @@ class IntervalGraph(object):
         types (e.g. int, float, str, frozenset - or tuples of those, etc.)
         """
 
-        G = IntervalGraph()
+        G = cls()
 
         if delimiter == '=':
             raise ValueError("Delimiter cannot be =.")
-- 
2.43.0


From b23591d82aa8e62beb6257775b1b80d3c2cbcb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:44 +0000
Subject: [PATCH 42/62] fix: converting snapshots with parallel edges or edges
 in either node order

---
 dynetworkx/classes/intervalgraph.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index a3e28d7..8636024 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1634,12 +1634,18 @@ class IntervalGraph(object):
         >>> ig = IntervalGraph.from_snapshot_graph(sg,0,1)
         """
         G = cls()
+        directed = isinstance(G, dnx.IntervalDiGraph)
         edge_dict = {}
 
         for snapshot in snapshot_graph.get():
             for edge in snapshot.edges(data=True):
                 u_v = (edge[0], edge[1])
+                if u_v not in edge_dict and not (directed and snapshot.is_directed()):
+                    # the nodes of an undirected edge come in any order
+                    u_v = (edge[1], edge[0]) if (edge[1], edge[0]) in edge_dict else u_v
                 if u_v in edge_dict:
+                    if begin + period in edge_dict[u_v]:
+                        continue  # parallel edge in the same snapshot
                     if begin in edge_dict[u_v]:
                         edge_dict[u_v][begin + period] = edge_dict[u_v][begin]
                         del edge_dict[u_v][begin]
-- 
2.43.0


From d72b8edfbcbe43847b36925f788cc092291f5f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:06 +0000
Subject: [PATCH 43/62] fix: compound queries with a trained predictive model
 fail

The model takes a two-dimensional array, and u and v are lists of nodes already.
---
 dynetworkx/classes/impulsedigraph.py  | 4 ++--
 dynetworkx/classes/impulsegraph.py    | 2 +-
 dynetworkx/classes/intervaldigraph.py | 4 ++--
 dynetworkx/classes/intervalgraph.py   | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index fd1facb..90e1106 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -511,7 +511,7 @@ class ImpulseDiGraph(ImpulseGraph):
             elif v == [None]:
                 nodes = u
             else:
-                nodes = set(*u).union(set(*v))
+                nodes = set(u).union(v)
 
             node_percent = len(nodes) / self.number_of_nodes()
 
@@ -523,7 +523,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
             interval_percent = (end - begin) / (graph_end - graph_begin)
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end, inclusive)
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 16d81cb..e1cd51f 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -868,7 +868,7 @@ class ImpulseGraph(object):
             elif v == [None]:
                 nodes = u
             else:
-                nodes = set(*u).union(set(*v))
+                nodes = set(u).union(v)
 
             node_percent = len(nodes) / self.number_of_nodes()
 
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 0aa31a2..af49c34 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -448,7 +448,7 @@ class IntervalDiGraph(IntervalGraph):
             elif v == [None]:
                 nodes = u
             else:
-                nodes = set(*u).union(set(*v))
+                nodes = set(u).union(v)
 
             node_percent = len(nodes) / self.number_of_nodes()
 
@@ -460,7 +460,7 @@ class IntervalDiGraph(IntervalGraph):
 
             interval_percent = (end - begin) / (graph_end - graph_begin)
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end)
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 8636024..4278a0e 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -971,7 +971,7 @@ class IntervalGraph(object):
             elif v == [None]:
                 nodes = u
             else:
-                nodes = set(*u).union(set(*v))
+                nodes = set(u).union(v)
 
             node_percent = len(nodes) / self.number_of_nodes()
 
@@ -983,7 +983,7 @@ class IntervalGraph(object):
 
             interval_percent = (end - begin) / (graph_end - graph_begin)
 
-            node_time, interval_time = self._model.predict((node_percent, interval_percent))[0]
+            node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end)
-- 
2.43.0


From 57656cdf4708d81aa5862c5722fac2edc2178ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:22 +0000
Subject: [PATCH 44/62] fix: open-ended compound queries with a trained model
 keep the last edges

The missing end of the window was replaced by the end of the graph, which is
not part of a window, and the missing begin likewise when it is not inclusive.
---
 dynetworkx/classes/impulsedigraph.py  | 9 ++++-----
 dynetworkx/classes/impulsegraph.py    | 9 ++++-----
 dynetworkx/classes/intervaldigraph.py | 9 ++++-----
 dynetworkx/classes/intervalgraph.py   | 9 ++++-----
 4 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 90e1106..6040ce1 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -515,13 +515,12 @@ class ImpulseDiGraph(ImpulseGraph):
 
             node_percent = len(nodes) / self.number_of_nodes()
 
+            # the bounds of the query itself are kept as given
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            query_begin = graph_begin if begin is None else begin
+            query_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (query_end - query_begin) / (graph_end - graph_begin)
 
             node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index e1cd51f..a6634a2 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -872,13 +872,12 @@ class ImpulseGraph(object):
 
             node_percent = len(nodes) / self.number_of_nodes()
 
+            # the bounds of the query itself are kept as given
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            query_begin = graph_begin if begin is None else begin
+            query_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (query_end - query_begin) / (graph_end - graph_begin)
 
             node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index af49c34..343cfcf 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -452,13 +452,12 @@ class IntervalDiGraph(IntervalGraph):
 
             node_percent = len(nodes) / self.number_of_nodes()
 
+            # the bounds of the query itself are kept as given
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            query_begin = graph_begin if begin is None else begin
+            query_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (query_end - query_begin) / (graph_end - graph_begin)
 
             node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 4278a0e..3718de9 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -975,13 +975,12 @@ class IntervalGraph(object):
 
             node_percent = len(nodes) / self.number_of_nodes()
 
+            # the bounds of the query itself are kept as given
             graph_begin, graph_end = self.interval()
-            if begin is None:
-                begin = graph_begin
-            if end is None:
-                end = graph_end
+            query_begin = graph_begin if begin is None else begin
+            query_end = graph_end if end is None else end
 
-            interval_percent = (end - begin) / (graph_end - graph_begin)
+            interval_percent = (query_end - query_begin) / (graph_end - graph_begin)
 
             node_time, interval_time = self._model.predict([(node_percent, interval_percent)])[0]
 
-- 
2.43.0


From 59f1519ed8ab46ee3022573f7877ff678387f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:09 +0000
Subject: [PATCH 45/62] fix: compound queries answered interval first honour
 both nodes and the direction

They returned every edge touching any of the given nodes.
---
 dynetworkx/classes/impulsedigraph.py  | 3 ++-
 dynetworkx/classes/impulsegraph.py    | 4 +++-
 dynetworkx/classes/intervaldigraph.py | 3 ++-
 dynetworkx/classes/intervalgraph.py   | 4 +++-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 6040ce1..ea99ff9 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -527,7 +527,8 @@ class ImpulseDiGraph(ImpulseGraph):
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive)
+                          if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index a6634a2..4170d4f 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -884,7 +884,9 @@ class ImpulseGraph(object):
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end, inclusive)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end, inclusive)
+                          if ((u == [None] or e[0] in u) and (v == [None] or e[1] in v))
+                          or ((u == [None] or e[1] in u) and (v == [None] or e[0] in v))]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 343cfcf..eae357c 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -464,7 +464,8 @@ class IntervalDiGraph(IntervalGraph):
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end)
+                          if (u == [None] or e[0] in u) and (v == [None] or e[1] in v)]
 
         # Node First
         else:
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 3718de9..3331eaf 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -987,7 +987,9 @@ class IntervalGraph(object):
             if node_time < interval_time:
                 iedges = self.__edges_node_first(u, v, begin, end)
             else:
-                iedges = [e for e in self.__edges_interval_first(begin, end) if e[0] in nodes or e[1] in nodes]
+                iedges = [e for e in self.__edges_interval_first(begin, end)
+                          if ((u == [None] or e[0] in u) and (v == [None] or e[1] in v))
+                          or ((u == [None] or e[1] in u) and (v == [None] or e[0] in v))]
 
         # Node First
         else:
-- 
2.43.0


From 8796dbdcaa33615758630af67684287839733b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:23 +0000
Subject: [PATCH 46/62] fix: trained graphs whose edges are gone or all at one
 time answer compound queries

The share of the span which a window takes was divided by a span of zero, or
the extent of a graph without edges was asked for.
---
 dynetworkx/classes/impulsedigraph.py  | 7 ++++++-
 dynetworkx/classes/impulsegraph.py    | 7 ++++++-
 dynetworkx/classes/intervaldigraph.py | 8 +++++++-
 dynetworkx/classes/intervalgraph.py   | 8 +++++++-
 4 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index ea99ff9..435e929 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -505,7 +505,8 @@ class ImpulseDiGraph(ImpulseGraph):
             iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
+                and self.__has_span():
             if u == [None]:
                 nodes = v
             elif v == [None]:
@@ -544,6 +545,10 @@ class ImpulseDiGraph(ImpulseGraph):
         return [(iv, self._pred[iv[0]][iv[1]][iv][data]) if data in self._pred[iv[0]][iv[1]][iv] else (iv, default) for iv
                 in iedges]
 
+    def __has_span(self):
+        """Returns True if the graph has edges at different times, so that a window is a fraction of its span."""
+        return len(self.tree) > 1
+
     def __generate_training_data(self, training_size):
         """Returns list of training samples, X = (node_percent, interval_percent), y = (node_time, interval_time).
 
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 4170d4f..d3a45a6 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -652,6 +652,10 @@ class ImpulseGraph(object):
                 return True
         return False
 
+    def __has_span(self):
+        """Returns True if the graph has edges at different times, so that a window is a fraction of its span."""
+        return len(self.tree) > 1
+
     def __generate_training_data(self, training_size):
         """Returns list of training samples, X = (node_percent, interval_percent), y = (node_time, interval_time).
 
@@ -862,7 +866,8 @@ class ImpulseGraph(object):
             iedges = self.__edges_interval_first(begin, end, inclusive)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
+                and self.__has_span():
             if u == [None]:
                 nodes = v
             elif v == [None]:
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index eae357c..19df187 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -442,7 +442,8 @@ class IntervalDiGraph(IntervalGraph):
             iedges = self.__edges_interval_first(begin, end)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
+                and self.__has_span():
             if u == [None]:
                 nodes = v
             elif v == [None]:
@@ -481,6 +482,11 @@ class IntervalDiGraph(IntervalGraph):
         return [(iv, self._pred[iv[0]][iv[1]][iv][data]) if data in self._pred[iv[0]][iv[1]][iv] else (iv, default) for iv
                 in iedges]
 
+    def __has_span(self):
+        """Returns True if the graph has edges at different times, so that a window is a fraction of its span."""
+        graph_begin, graph_end = self.interval()
+        return graph_begin < graph_end
+
     def __generate_training_data(self, training_size):
         """Returns list of training samples, X = (node_percent, interval_percent), y = (node_time, interval_time).
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 3331eaf..6012eeb 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -965,7 +965,8 @@ class IntervalGraph(object):
             iedges = self.__edges_interval_first(begin, end)
 
         # Compound
-        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None:
+        elif (u != [None] or v != [None]) and (begin is not None or end is not None) and self._model is not None \
+                and self.__has_span():
             if u == [None]:
                 nodes = v
             elif v == [None]:
@@ -1201,6 +1202,11 @@ class IntervalGraph(object):
                 if len(self._adj[u][v]) == 0:
                     self._adj[u].pop(v)
 
+    def __has_span(self):
+        """Returns True if the graph has edges at different times, so that a window is a fraction of its span."""
+        graph_begin, graph_end = self.interval()
+        return graph_begin < graph_end
+
     def __generate_training_data(self, training_size):
         """Returns list of training samples, X = (node_percent, interval_percent), y = (node_time, interval_time).
 
-- 
2.43.0


From e9470438f10cd1994e9ee0ec427553bf355e91e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:01 +0000
Subject: [PATCH 47/62] fix: training the predictive model of an ImpulseDiGraph

The timestamps were taken for edges.
---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 435e929..8e75c8f 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -586,7 +586,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
             interval_edges = []
             start_timer = timer()
-            for edge in self.tree.irange(begin, end, inclusive=(True, False)):
+            for edge in self.__search_tree(begin, end):
                 if edge[0] in nodes or edge[1] in nodes:
                     interval_edges.append(edge)
             interval_time = timer() - start_timer
-- 
2.43.0


From ad4ce74ce1cb21215c259a817fad2ab8ba9e141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:40 +0000
Subject: [PATCH 48/62] fix: training the predictive model ends on any graph
 with edges

No nodes were drawn from graphs of one or two nodes, samples without edges were
drawn again without limit, and random.randint refuses fractional times and the
empty range left when rounding up the window leaves no begin.
---
 dynetworkx/classes/impulsedigraph.py  | 11 +++++++----
 dynetworkx/classes/impulsegraph.py    | 11 +++++++----
 dynetworkx/classes/intervaldigraph.py | 11 +++++++----
 dynetworkx/classes/intervalgraph.py   | 11 +++++++----
 4 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 8e75c8f..49b9073 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -563,12 +563,14 @@ class ImpulseDiGraph(ImpulseGraph):
         X = []
         y = []
 
+        attempts = 0
         while len(X) < training_size:
+            attempts += 1
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = random.uniform(graph_begin,
+                                   graph_end - (graph_end - graph_begin) * interval_percent / 100)
+            nodes = set(random.choices(node_list, k=math.ceil(node_percent / 100 * len(node_list))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
@@ -581,7 +583,8 @@ class ImpulseDiGraph(ImpulseGraph):
                                 node_edges.add(edge)
             node_time = timer() - start_timer
 
-            if len(node_edges) == 0:
+            # prefer samples with edges, as long as they can be found
+            if len(node_edges) == 0 and attempts < 20 * training_size:
                 continue
 
             interval_edges = []
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index d3a45a6..2d2f772 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -670,12 +670,14 @@ class ImpulseGraph(object):
         X = []
         y = []
 
+        attempts = 0
         while len(X) < training_size:
+            attempts += 1
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = random.uniform(graph_begin,
+                                   graph_end - (graph_end - graph_begin) * interval_percent / 100)
+            nodes = set(random.choices(node_list, k=math.ceil(node_percent / 100 * len(node_list))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
@@ -687,7 +689,8 @@ class ImpulseGraph(object):
                             node_edges.add(edge)
             node_time = timer() - start_timer
 
-            if len(node_edges) == 0:
+            # prefer samples with edges, as long as they can be found
+            if len(node_edges) == 0 and attempts < 20 * training_size:
                 continue
 
             interval_edges = []
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 19df187..9abc675 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -501,12 +501,14 @@ class IntervalDiGraph(IntervalGraph):
         X = []
         y = []
 
+        attempts = 0
         while len(X) < training_size:
+            attempts += 1
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = random.uniform(graph_begin,
+                                   graph_end - (graph_end - graph_begin) * interval_percent / 100)
+            nodes = set(random.choices(node_list, k=math.ceil(node_percent / 100 * len(node_list))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
@@ -519,7 +521,8 @@ class IntervalDiGraph(IntervalGraph):
                                 node_edges.add(edge)
             node_time = timer() - start_timer
 
-            if len(node_edges) == 0:
+            # prefer samples with edges, as long as they can be found
+            if len(node_edges) == 0 and attempts < 20 * training_size:
                 continue
 
             interval_edges = []
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 6012eeb..b0bbf06 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1221,12 +1221,14 @@ class IntervalGraph(object):
         X = []
         y = []
 
+        attempts = 0
         while len(X) < training_size:
+            attempts += 1
             node_percent = random.randint(1, 50)
             interval_percent = random.randint(1, 50)
-            begin = random.randint(graph_begin,
-                                   graph_end - math.ceil((graph_end - graph_begin) * interval_percent / 100))
-            nodes = set(random.choices(node_list, k=math.floor(node_percent / 100 * len(node_list))))
+            begin = random.uniform(graph_begin,
+                                   graph_end - (graph_end - graph_begin) * interval_percent / 100)
+            nodes = set(random.choices(node_list, k=math.ceil(node_percent / 100 * len(node_list))))
             end = begin + (graph_end - graph_begin) * interval_percent / 100
 
             node_edges = set()
@@ -1238,7 +1240,8 @@ class IntervalGraph(object):
                             node_edges.add(edge)
             node_time = timer() - start_timer
 
-            if len(node_edges) == 0:
+            # prefer samples with edges, as long as they can be found
+            if len(node_edges) == 0 and attempts < 20 * training_size:
                 continue
 
             interval_edges = []
-- 
2.43.0


From 32e266ad9473b5a6812e76f813fa9e0a9226cf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:43 +0000
Subject: [PATCH 49/62] fix: count motifs at nodes such as 0 and the empty
 string

A motif node mapped to a false value was taken as not mapped yet.
---
 dynetworkx/algorithms/count_temporal_motif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 94afbae..98de2ce 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -153,7 +153,7 @@ def count_temporal_motif(G, sequence, delta):
                 isomorphic = True
                 # check matching sequences (node sequence vs key)
                 for n in range(len(node_sequence)):
-                    if node_map.get(node_sequence[n]):
+                    if node_sequence[n] in node_map:
                         if node_map[node_sequence[n]] == keys[n]:
                             continue
                         else:
-- 
2.43.0


From d6f79b6ad69fdce01a27fd25423154ac4b339994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:21 +0000
Subject: [PATCH 50/62] fix: count all occurrences of motifs of a single edge

Edges leaving the time window were taken off the counts of complete motifs.
---
 dynetworkx/algorithms/count_temporal_motif.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 98de2ce..9416f6f 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -223,6 +223,10 @@ def __decrement_counts(edges, motif_length, counts):
     None
     """
     suffixes = sorted(counts.keys(), key=len)
+    # complete motifs stay counted
+    if motif_length == 1:
+        return
+
     for e in edges:
         counts[e] -= 1
 
-- 
2.43.0


From 97acd86e1f8d45e61faaadef8032a8cadc5097bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:11 +0000
Subject: [PATCH 51/62] fix: refuse interval edges which end before they begin

The check was lost with the present interval tree; such edges were stored and
then found by some queries and not by others.
---
 dynetworkx/classes/intervaldigraph.py | 4 ++++
 dynetworkx/classes/intervalgraph.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 9abc675..8c62f17 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -174,6 +174,10 @@ class IntervalDiGraph(IntervalGraph):
             self._succ[v][u][(u, v, begin, end)].update(attr)
             return
 
+        if begin > end:
+            raise NetworkXError("IntervalDiGraph: edge end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
+
         iedge = (u, v, begin, end)
 
         # add nodes
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index b0bbf06..9c4f338 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -680,6 +680,10 @@ class IntervalGraph(object):
             self._adj[v][u][(u, v, begin, end)].update(attr)
             return
 
+        if begin > end:
+            raise NetworkXError("IntervalGraph: edge end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
+
         iedge = (u, v, begin, end)
 
         # add nodes
-- 
2.43.0


From 33b845ea99a772a87d398fd6c2bdcd5fbdacca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:23 +0000
Subject: [PATCH 52/62] fix: add_edges_from with an invalid edge adds none of
 the edges

---
 dynetworkx/classes/impulsedigraph.py  | 4 ++++
 dynetworkx/classes/impulsegraph.py    | 4 ++++
 dynetworkx/classes/intervaldigraph.py | 6 ++++++
 dynetworkx/classes/intervalgraph.py   | 6 ++++++
 4 files changed, 20 insertions(+)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 49b9073..c048b5a 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -307,9 +307,13 @@ class ImpulseDiGraph(ImpulseGraph):
         >>> G.add_edges_from([(3, 4, 19), (1, 4, 3)], label='WN2898')
         """
 
+        # add all of the edges or none
+        ebunch_to_add = list(ebunch_to_add)
         for e in ebunch_to_add:
             if len(e) != 3:
                 raise NetworkXError("Edge tuple {0} must be a 3-tuple.".format(e))
+
+        for e in ebunch_to_add:
             self.add_edge(e[0], e[1], e[2], **attr)
 
     def has_edge(self, u, v, begin=None, end=None, inclusive=(True, True)):
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 2d2f772..f04489f 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -607,9 +607,13 @@ class ImpulseGraph(object):
         >>> G.add_edges_from([(3, 4, 19), (1, 4, 3)], label='WN2898')
         """
 
+        # add all of the edges or none
+        ebunch_to_add = list(ebunch_to_add)
         for e in ebunch_to_add:
             if len(e) != 3:
                 raise NetworkXError("Edge tuple {0} must be a 3-tuple.".format(e))
+
+        for e in ebunch_to_add:
             self.add_edge(e[0], e[1], e[2], **attr)
 
     def has_edge(self, u, v, begin=None, end=None, inclusive=(True, False)):
diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 8c62f17..573f96f 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -228,10 +228,16 @@ class IntervalDiGraph(IntervalGraph):
         >>> G.add_edges_from([(3, 4, 2, 19), (1, 4, 1, 3)], label='WN2898')
         """
 
+        # add all of the edges or none
+        ebunch_to_add = list(ebunch_to_add)
         for e in ebunch_to_add:
             if len(e) != 4:
                 raise NetworkXError("Edge tuple {0} must be a 4-tuple.".format(e))
+            if e[2] > e[3]:
+                raise NetworkXError("IntervalDiGraph: edge end must be bigger than or equal to begin: "
+                                    "begin: {}, end: {}.".format(e[2], e[3]))
 
+        for e in ebunch_to_add:
             self.add_edge(e[0], e[1], e[2], e[3], **attr)
 
     def has_edge(self, u, v, begin=None, end=None, overlapping=True):
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 9c4f338..a2127c8 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -733,10 +733,16 @@ class IntervalGraph(object):
         >>> G.add_edges_from([(3, 4, 2, 19), (1, 4, 1, 3)], label='WN2898')
         """
 
+        # add all of the edges or none
+        ebunch_to_add = list(ebunch_to_add)
         for e in ebunch_to_add:
             if len(e) != 4:
                 raise NetworkXError("Edge tuple {0} must be a 4-tuple.".format(e))
+            if e[2] > e[3]:
+                raise NetworkXError("IntervalGraph: edge end must be bigger than or equal to begin: "
+                                    "begin: {}, end: {}.".format(e[2], e[3]))
 
+        for e in ebunch_to_add:
             self.add_edge(e[0], e[1], e[2], e[3], **attr)
 
     def has_edge(self, u, v, begin=None, end=None, overlapping=True):
-- 
2.43.0


From fbdfc89fc77a2e6b5309f58105ac209349c20bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:35 +0000
Subject: [PATCH 53/62] fix: updates of snapshots by position change none when
 a position is missing

---
 dynetworkx/classes/snapshotgraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 66976b6..632826a 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -625,8 +625,8 @@ class SnapshotGraph(object):
         if sbunch is not None and (start is not None or end is not None):
             raise ValueError('Either sbunch or (start and end) can be specified.')
         elif sbunch is not None:  # if retrieve by indexes
-            for index in sbunch:
-                yield graphs[index]
+            # look up every index before any snapshot is changed
+            yield from [graphs[index] for index in sbunch]
         else:  # if retrieve by interval
             if split_overlaps:
                 # Split the snapshots if 'start' or 'end' is in the middle of their interval
-- 
2.43.0


From e28364cbc6743424ad4c4b7f6c38f500c081a5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:47 +0000
Subject: [PATCH 54/62] fix: updates of an empty or reversed window do not
 split snapshots

---
 dynetworkx/classes/snapshotgraph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dynetworkx/classes/snapshotgraph.py b/dynetworkx/classes/snapshotgraph.py
index 632826a..4101bef 100644
--- a/dynetworkx/classes/snapshotgraph.py
+++ b/dynetworkx/classes/snapshotgraph.py
@@ -629,6 +629,9 @@ class SnapshotGraph(object):
             yield from [graphs[index] for index in sbunch]
         else:  # if retrieve by interval
             if split_overlaps:
+                # an empty window selects nothing and needs no split
+                if start is not None and end is not None and start >= end:
+                    return
                 # Split the snapshots if 'start' or 'end' is in the middle of their interval
                 # Eg: if Keys = [(2,5)(5,9)], start=3 and end=7, split (2,5) into (2,3) and (3,5),
                 # and split (5,9) into (5,7) and (7,9)
-- 
2.43.0


From 0a99614b7b03137b046edfc1626203fa3f3a52ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:59 +0000
Subject: [PATCH 55/62] fix: refuse to remove a node of an interval graph in a
 reversed window

It removed edges spanning the window.
---
 dynetworkx/classes/intervaldigraph.py | 4 ++++
 dynetworkx/classes/intervalgraph.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 573f96f..15470fe 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -102,6 +102,10 @@ class IntervalDiGraph(IntervalGraph):
         if n not in self._node:
             return
 
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalDiGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
+
         iedges = {iedge for v in self._pred.get(n, {}) for iedge in self._pred[n][v]}
         iedges.update(iedge for u in self._succ.get(n, {}) for iedge in self._succ[n][u])
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index a2127c8..ce56e32 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -609,6 +609,10 @@ class IntervalGraph(object):
         if n not in self._node:
             return
 
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
+
         if begin is None and end is None:
             iedges = [iedge for v in self._adj.get(n, {}) for iedge in self._adj[n][v]]
         else:
-- 
2.43.0


From fb8f70839a60bd949493b798b93d259d253d23f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 56/62] fix: interval graphs accept times of any orderable type

---
 dynetworkx/classes/intervaldigraph.py |  6 +++---
 dynetworkx/classes/intervalgraph.py   |  4 ++--
 dynetworkx/classes/intervaltree.py    | 18 +++++++++---------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 15470fe..2838491 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -712,7 +712,7 @@ class IntervalDiGraph(IntervalGraph):
             end = self.tree.end
 
         # the window lies outside of the interval of the graph
-        if omitted and begin > end:
+        if omitted and (self.tree.root is None or begin > end):
             return []
 
         current_degree = self.degree(node, begin=begin, end=begin)
@@ -802,7 +802,7 @@ class IntervalDiGraph(IntervalGraph):
             end = self.tree.end
 
         # the window lies outside of the interval of the graph
-        if omitted and begin > end:
+        if omitted and (self.tree.root is None or begin > end):
             return []
 
         current_degree = self.in_degree(node, begin=begin, end=begin)
@@ -885,7 +885,7 @@ class IntervalDiGraph(IntervalGraph):
             end = self.tree.end
 
         # the window lies outside of the interval of the graph
-        if omitted and begin > end:
+        if omitted and (self.tree.root is None or begin > end):
             return []
 
         current_degree = self.out_degree(node, begin=begin, end=begin)
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index ce56e32..226b28a 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -485,7 +485,7 @@ class IntervalGraph(object):
         if begin is None and end is None:
             return True
 
-        if begin is None and end < self.tree.begin:
+        if self.tree.root is None:
             return False
 
         if begin is not None and end is not None and end < begin:
@@ -1165,7 +1165,7 @@ class IntervalGraph(object):
             end = self.tree.end
 
         # the window lies outside of the interval of the graph
-        if omitted and begin > end:
+        if omitted and (self.tree.root is None or begin > end):
             return []
 
         current_degree = self.degree(node, begin=begin, end=begin)
diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index c541840..27e9477 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -13,7 +13,10 @@ class Node:
         self.height = 0
 
     def inInterval(self, begin, end):
-        return (self.low < end and self.high > begin) or self.low == begin
+        # a bound which is None leaves its side open
+        if begin is not None and self.low == begin:
+            return True
+        return (end is None or self.low < end) and (begin is None or self.high > begin)
 
 class IntervalTree:
 
@@ -155,13 +158,13 @@ class IntervalTree:
         return self.getHeight(node.left) - self.getHeight(node.right)
 
     def query(self, node, begin, end):
-        if node.left and node.left.max >= begin:
+        if node.left and (begin is None or node.left.max >= begin):
             yield from self.query(node.left, begin, end)
 
         if node.inInterval(begin, end):
             yield node
 
-        if node.right and node.low <= end and node.right.max >= begin:
+        if node.right and (end is None or node.low <= end) and (begin is None or node.right.max >= begin):
             yield from self.query(node.right, begin, end)
 
     def queryTouching(self, node, begin, end):
@@ -195,8 +198,9 @@ class IntervalTree:
 
         self.root = self.insert(self.root, node)
         self.number_of_edges += 1
-        self.begin = min(self.begin, start)
-        self.end = max(self.end, end)
+        # the extent of an empty tree need not be comparable with the times of its edges
+        self.begin = start if len(self.nodes) == 1 else min(self.begin, start)
+        self.end = end if len(self.nodes) == 1 else max(self.end, end)
         return
 
     def add_from(self, edges):
@@ -235,10 +239,6 @@ class IntervalTree:
             root = self.root
             if not root:
                 return []
-        if interval_start is None:
-            interval_start = float("-inf")
-        if interval_end is None:
-            interval_end = float("inf")
 
         for node in self.query(root, interval_start, interval_end):
             yield from node.edges
-- 
2.43.0


From 29ac0b735e34fddccc0ebdaafbccb3978c9d1cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:47 +0000
Subject: [PATCH 57/62] fix: keep attribute values containing = when loading
 from text

---
 dynetworkx/classes/impulsedigraph.py | 2 +-
 dynetworkx/classes/impulsegraph.py   | 2 +-
 dynetworkx/classes/intervalgraph.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index c048b5a..2ad541c 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -1114,7 +1114,7 @@ class ImpulseDiGraph(ImpulseGraph):
 
                 edgedata = {}
                 for data in line[3:]:
-                    key, value = data.split('=')
+                    key, value = data.split('=', 1)
 
                     try:
                         value = float(value)
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index f04489f..e4c5e27 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1493,7 +1493,7 @@ class ImpulseGraph(object):
 
                 edgedata = {}
                 for data in line[3:]:
-                    key, value = data.split('=')
+                    key, value = data.split('=', 1)
 
                     try:
                         value = float(value)
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 226b28a..2275201 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1823,7 +1823,7 @@ class IntervalGraph(object):
                 try:
                     # a duration in the order is not a column
                     for data in line[4 if 'begin' in order and 'end' in order else 3:]:
-                        key, value = data.split('=')
+                        key, value = data.split('=', 1)
                         try:
                             value = float(value)
                         except:
-- 
2.43.0


From 51ec22d32ae56eb2cf7304842dbc13f82de57467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:27 +0000
Subject: [PATCH 58/62] fix: refuse reversed windows in node queries and
 subgraphs of interval graphs

---
 dynetworkx/classes/intervalgraph.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 2275201..92ab8c5 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -432,6 +432,10 @@ class IntervalGraph(object):
         if begin is None and end is None:
             return len(self._node)
 
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
+
         iedges = self.tree[begin:end]
 
         inodes = set()
@@ -559,6 +563,10 @@ class IntervalGraph(object):
         if begin is None and end is None:
             return NodeDataView(self._node, data=data, default=default)
 
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
+
         iedges = self.tree[begin:end]
 
         inodes = set()
@@ -1372,6 +1380,10 @@ class IntervalGraph(object):
         >>> list(M.edges(data=True))
         [(1, 2, {'end': 10, 'begin': 3}), (2, 4, {'end': 11, 'begin': 1}), (2, 4, {'end': 15, 'begin': 8})]
         """
+        if begin is not None and end is not None and begin > end:
+            raise NetworkXError("IntervalGraph: interval end must be bigger than or equal to begin: "
+                                "begin: {}, end: {}.".format(begin, end))
+
         iedges = self.tree[begin:end]
 
         if multigraph:
-- 
2.43.0


From 416445ab01c4aaf8b07c3a9279c3ca1d5345ff0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:50 +0000
Subject: [PATCH 59/62] fix: first and last equal-length snapshots reach the
 ends of the graph's extent exactly

---
 dynetworkx/classes/impulsegraph.py  |  4 +++-
 dynetworkx/classes/intervalgraph.py | 14 ++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index e4c5e27..41ded37 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -1301,6 +1301,7 @@ class ImpulseGraph(object):
 
         snapshots = []
         inclusive = (True, False)
+        snapshot_begin = begin
         for i in range(number_of_snapshots):
             snapshot_end = begin + length_of_snapshots * (i + 1)
             if i == number_of_snapshots - 1:
@@ -1308,10 +1309,11 @@ class ImpulseGraph(object):
                 # rounding must not leave out the last timestamp
                 snapshot_end = max(snapshot_end, end)
             snapshots.append(
-                self.to_subgraph(begin + length_of_snapshots * i,
+                self.to_subgraph(snapshot_begin,
                                  snapshot_end, inclusive=inclusive,
                                  multigraph=multigraph, edge_data=edge_data, edge_timestamp_data=edge_timestamp_data,
                                  node_data=node_data))
+            snapshot_begin = snapshot_end
         if return_length:
             return snapshots, length_of_snapshots
 
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 92ab8c5..7bccab6 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -1501,17 +1501,19 @@ class IntervalGraph(object):
             length_of_snapshots = (end - begin) / number_of_snapshots
 
         snapshots = []
-        end_inclusive_addition = 0
+        snapshot_begin = begin
         for i in range(number_of_snapshots):
-            # since to_subgraph is end non-inclusive, shift the end up by 1 to include end in the last snapshot.
-            if i == number_of_snapshots - 1:
-                end_inclusive_addition = 1
+            # since to_subgraph is end non-inclusive, leave the end of the last snapshot open to include the end.
+            snapshot_end = None
+            if i < number_of_snapshots - 1:
+                snapshot_end = begin + length_of_snapshots * (i + 1)
 
             snapshots.append(
-                self.to_subgraph(begin + length_of_snapshots * i,
-                                 begin + length_of_snapshots * (i + 1) + end_inclusive_addition,
+                self.to_subgraph(snapshot_begin,
+                                 snapshot_end,
                                  multigraph=multigraph, edge_data=edge_data, edge_interval_data=edge_interval_data,
                                  node_data=node_data))
+            snapshot_begin = snapshot_end
         if return_length:
             return snapshots, length_of_snapshots
 
-- 
2.43.0


From 88b12c0fe122a9f143e92840a033a5f6ce719d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:28 +0000
Subject: [PATCH 60/62] fix: refused edges (unhashable node, unorderable
 timestamp) leave impulse graphs unchanged

---
 dynetworkx/classes/impulsedigraph.py | 4 ++++
 dynetworkx/classes/impulsegraph.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/dynetworkx/classes/impulsedigraph.py b/dynetworkx/classes/impulsedigraph.py
index 2ad541c..564d28f 100644
--- a/dynetworkx/classes/impulsedigraph.py
+++ b/dynetworkx/classes/impulsedigraph.py
@@ -266,6 +266,10 @@ class ImpulseDiGraph(ImpulseGraph):
         >>> G.add_edge(1, 3, 9, weight=7, capacity=15, length=342.7)
         """
 
+        # refuse unhashable nodes and timestamps which cannot be ordered before anything is changed
+        hash((u, v))
+        self.tree.bisect_left(t)
+
         self.tree.setdefault(t, set()).add((u, v))
 
         self._node.setdefault(u, {})
diff --git a/dynetworkx/classes/impulsegraph.py b/dynetworkx/classes/impulsegraph.py
index 41ded37..9867f15 100644
--- a/dynetworkx/classes/impulsegraph.py
+++ b/dynetworkx/classes/impulsegraph.py
@@ -566,6 +566,10 @@ class ImpulseGraph(object):
         >>> G.add_edge(1, 3, 9, weight=7, capacity=15, length=342.7)
         """
 
+        # refuse unhashable nodes and timestamps which cannot be ordered before anything is changed
+        hash((u, v))
+        self.tree.bisect_left(t)
+
         self.tree.setdefault(t, set()).add((u, v))
 
         self._node.setdefault(u, {})
-- 
2.43.0


From 82a88c70205e91c7b11fc68edc5640ad519eac96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:47 +0000
Subject: [PATCH 61/62] fix: refused edges (unhashable node, unorderable time)
 leave interval graphs unchanged

---
 dynetworkx/classes/intervaldigraph.py | 14 ++++++++------
 dynetworkx/classes/intervalgraph.py   | 14 ++++++++------
 dynetworkx/classes/intervaltree.py    |  3 ++-
 3 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/dynetworkx/classes/intervaldigraph.py b/dynetworkx/classes/intervaldigraph.py
index 2838491..9296097 100644
--- a/dynetworkx/classes/intervaldigraph.py
+++ b/dynetworkx/classes/intervaldigraph.py
@@ -183,6 +183,14 @@ class IntervalDiGraph(IntervalGraph):
                                 "begin: {}, end: {}.".format(begin, end))
 
         iedge = (u, v, begin, end)
+        # refuse unhashable nodes before anything is changed
+        hash(iedge)
+
+        # add edge
+        try:
+            self.tree.add(iedge)
+        except ValueError:
+            raise NetworkXError("IntervalDiGraph: edge duration must be strictly bigger than zero {0}.".format(iedge))
 
         # add nodes
 
@@ -191,12 +199,6 @@ class IntervalDiGraph(IntervalGraph):
         self._node.setdefault(u, {})
         self._node.setdefault(v, {})
 
-        # add edge
-        try:
-            self.tree.add(iedge)
-        except ValueError:
-            raise NetworkXError("IntervalDiGraph: edge duration must be strictly bigger than zero {0}.".format(iedge))
-
         self._pred[u][v][iedge] = self._succ[v][u][iedge] = attr
 
     def add_edges_from(self, ebunch_to_add, **attr):
diff --git a/dynetworkx/classes/intervalgraph.py b/dynetworkx/classes/intervalgraph.py
index 7bccab6..19ac163 100644
--- a/dynetworkx/classes/intervalgraph.py
+++ b/dynetworkx/classes/intervalgraph.py
@@ -697,12 +697,8 @@ class IntervalGraph(object):
                                 "begin: {}, end: {}.".format(begin, end))
 
         iedge = (u, v, begin, end)
-
-        # add nodes
-        self._adj.setdefault(u, {}).setdefault(v, {})
-        self._adj.setdefault(v, {}).setdefault(u, {})
-        self._node.setdefault(u, {})
-        self._node.setdefault(v, {})
+        # refuse unhashable nodes before anything is changed
+        hash(iedge)
 
         # add edge
         try:
@@ -710,6 +706,12 @@ class IntervalGraph(object):
         except ValueError:
             raise NetworkXError("IntervalGraph: edge duration must be strictly bigger than zero {0}.".format(iedge))
 
+        # add nodes
+        self._adj.setdefault(u, {}).setdefault(v, {})
+        self._adj.setdefault(v, {}).setdefault(u, {})
+        self._node.setdefault(u, {})
+        self._node.setdefault(v, {})
+
         self._adj[u][v][iedge] = self._adj[v][u][iedge] = attr
 
     def add_edges_from(self, ebunch_to_add, **attr):
diff --git a/dynetworkx/classes/intervaltree.py b/dynetworkx/classes/intervaltree.py
index 27e9477..a79dba8 100644
--- a/dynetworkx/classes/intervaltree.py
+++ b/dynetworkx/classes/intervaltree.py
@@ -194,9 +194,10 @@ class IntervalTree:
 
         node = Node(start, end)
         node.edges.append(edge)
-        self.nodes[(start, end)] = node
 
+        # fails without effect if the interval cannot be ordered
         self.root = self.insert(self.root, node)
+        self.nodes[(start, end)] = node
         self.number_of_edges += 1
         # the extent of an empty tree need not be comparable with the times of its edges
         self.begin = start if len(self.nodes) == 1 else min(self.begin, start)
-- 
2.43.0


From 681f4e6a9907c86408c900dcedab8a61eae46884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:43 +0000
Subject: [PATCH 62/62] fix: count temporal motifs among nodes which cannot be
 compared or only partly ordered

---
 dynetworkx/algorithms/count_temporal_motif.py | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/dynetworkx/algorithms/count_temporal_motif.py b/dynetworkx/algorithms/count_temporal_motif.py
index 9416f6f..6715232 100644
--- a/dynetworkx/algorithms/count_temporal_motif.py
+++ b/dynetworkx/algorithms/count_temporal_motif.py
@@ -19,12 +19,15 @@ def __enumerate_subgraphs(g, size_k):
     -------
     an iterator for all size_k sub-graphs of g
     """
+    # nodes need not be comparable: their position in the graph orders them
+    rank = {v: i for i, v in enumerate(g.nodes())}
+
     for v in g.nodes():
-        v_extension = set(filter(lambda x: x > v, g.neighbors(v)))
-        yield from __extend_subgraph({v}, v_extension, v, g, size_k)
+        v_extension = set(filter(lambda x: rank[x] > rank[v], g.neighbors(v)))
+        yield from __extend_subgraph({v}, v_extension, v, g, size_k, rank)
 
 
-def __extend_subgraph(v_subgraph, v_extension, v, g, size_k):
+def __extend_subgraph(v_subgraph, v_extension, v, g, size_k, rank):
     """A recursive helper function for __enumerate_subgraphs() to enumerate all size_k connected sub-graphs
 
     Parameters
@@ -39,6 +42,8 @@ def __extend_subgraph(v_subgraph, v_extension, v, g, size_k):
 
     size_k: size of sub-graphs
 
+    rank: dictionary of the position of each node of g
+
     Returns
     -------
     an iterator for all size_k sub-graphs of g with v as the starting node
@@ -50,9 +55,9 @@ def __extend_subgraph(v_subgraph, v_extension, v, g, size_k):
             w = random.choice(tuple(v_extension))
             v_extension.remove(w)
 
-            v2_extension = v_extension.copy().union(set(filter(lambda x: x > v,
+            v2_extension = v_extension.copy().union(set(filter(lambda x: rank[x] > rank[v],
                                                                set(g.neighbors(w)) - v_subgraph)))
-            yield from __extend_subgraph(v_subgraph.copy().union({w}), v2_extension, v, g, size_k)
+            yield from __extend_subgraph(v_subgraph.copy().union({w}), v2_extension, v, g, size_k, rank)
 
 
 def count_temporal_motif(G, sequence, delta):
@@ -144,7 +149,7 @@ def count_temporal_motif(G, sequence, delta):
             __increment_counts(same_time_edges, len(sequence), counts)
 
         # Extract out count for sequences that are isomorphic to the temporal motifs
-        for keys in sorted(counts.keys()):
+        for keys in counts:
             if len(keys) / 2 == len(sequence):
                 if counts[keys] == 0:
                     continue
@@ -183,10 +188,14 @@ def count_temporal_motif(G, sequence, delta):
     nodes = []
     for key in total_counts: # gathers all nodes
         nodes += list(key)
-    nodes = sorted(list(set(nodes))) # sorts and gets rid of duplicates
+    nodes = list(OrderedDict.fromkeys(nodes)) # gets rid of duplicates
+    try:
+        nodes = sorted(nodes)
+    except TypeError: # nodes which cannot be compared stay in the order they were found
+        pass
 
     # creates dataframe where columns = nodes, row indices = position number, and value = number of times each node is at each position
-    nppp = pd.DataFrame(index=nodes, columns=motif) # creates the dataframe
+    nppp = pd.DataFrame(index=pd.Index(nodes, tupleize_cols=False), columns=pd.Index(motif, tupleize_cols=False)) # creates the dataframe
 
     for col in nppp.columns: # sets all values in the dataframe to 0
         nppp[col].values[:] = 0
-- 
2.43.0

