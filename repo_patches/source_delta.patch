From f3f0c1912c6f8203d6cc01a366ef87f3c920b34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 01/23] fix: InfoQueue deactivates at deactive_t instead of
 raising AttributeError

---
 queueing_tool/queues/queue_extentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 2a5150f..e49406f 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -313,7 +313,7 @@ class InfoQueue(LossQueue):
                 self._next_ct = self.arrival_f(self._current_t)
 
                 if self._next_ct >= self.deactive_t:
-                    self.active = False
+                    self._active = False
                     return
 
                 self._num_total += 1
-- 
2.43.0


From 27db031764b309ade9436eb800ed3603f6fb1df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 02/23] fix: ResourceQueue treats an arrival it has to block
 like a LossQueue does

The private copy of the blocking code never scheduled the next outside
arrival, ignored qbuffer, did not record the loss with the agent and
counted the blocked agent as an arrival.
---
 queueing_tool/queues/queue_extentions.py | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index e49406f..5ed1596 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -152,26 +152,8 @@ class ResourceQueue(LossQueue):
                     else:
                         self._time = self._departures[0]._time
 
-                elif self.num_system < self.num_servers:
-                    super(ResourceQueue, self).next_event()
-
                 else:
-                    self.num_blocked += 1
-                    self._num_arrivals += 1
-                    self._num_total -= 1
-                    arrival = heappop(self._arrivals)
-                    self._current_t = arrival._time
-
-                    if self.collect_data:
-                        if arrival.agent_id not in self.data:
-                            self.data[arrival.agent_id] = [[arrival._time, 0, 0, len(self.queue), self.num_system]]
-                        else:
-                            self.data[arrival.agent_id].append([arrival._time, 0, 0, len(self.queue), self.num_system])
-
-                    if self._arrivals[0]._time < self._departures[0]._time:
-                        self._time = self._arrivals[0]._time
-                    else:
-                        self._time = self._departures[0]._time
+                    super(ResourceQueue, self).next_event()
         else:
             return super(ResourceQueue, self).next_event()
 
-- 
2.43.0


From 594bc2666c3fdeeedb89f603cbb65e6c1e1bca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 03/23] fix: a ResourceAgent takes its resource only when it
 departs

queue_action is also called on arrival and at the start of service, so
every visit took two servers.
---
 queueing_tool/queues/queue_extentions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 5ed1596..9836e7f 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -43,7 +43,8 @@ class ResourceAgent(Agent):
             The instance of the queue that the ``ResourceAgent`` will
             interact with.
         """
-        if isinstance(queue, ResourceQueue):
+        departing = len(args) == 0 or args[0] == 2
+        if isinstance(queue, ResourceQueue) and departing:
             if self._has_resource:
                 self._has_resource = False
                 self._had_resource = True
-- 
2.43.0


From 95cbfb7ea7f9a567a829e10278895f9dab12cc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 04/23] fix: set_num_servers starts only as many agents as
 there are idle servers

After a decrease more agents can be in service than there are servers, so
the difference of the two settings overestimates the idle servers.
---
 queueing_tool/queues/queue_servers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 6a196cc..176fd82 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -690,7 +690,8 @@ class QueueServer(object):
             the_str = "n must be a positive integer or infinity.\n{0}"
             raise ValueError(the_str.format(str(self)))
         else:
-            agents_to_queue = max(min(n - self.num_servers, len(self.queue)), 0)
+            num_servicing = self.num_system - len(self.queue)
+            agents_to_queue = max(min(n - num_servicing, len(self.queue)), 0)
 
             for _ in range(agents_to_queue):
                 self._service_from_queue()
-- 
2.43.0


From fa99cbdc6cfa91000a537f33fd98681f55322a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 05/23] fix: active_cap also holds when the queue is activated
 again

---
 queueing_tool/queues/queue_extentions.py | 2 ++
 queueing_tool/queues/queue_servers.py    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 9836e7f..89f1f73 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -291,6 +291,8 @@ class InfoQueue(LossQueue):
         if agent is not None:
             self._num_total += 1
             heappush(self._arrivals, agent)
+        elif self._oArrivals >= self.active_cap:
+            self._active = False
         else:
             if self._current_t >= self._next_ct:
                 self._next_ct = self.arrival_f(self._current_t)
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 176fd82..e2c4d95 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -359,6 +359,8 @@ class QueueServer(object):
         if agent is not None:
             self._num_total += 1
             heappush(self._arrivals, agent)
+        elif self._oArrivals >= self.active_cap:
+            self._active = False
         else:
             if self._current_t >= self._next_ct:
                 self._next_ct = self.arrival_f(self._current_t)
-- 
2.43.0


From 4da53f43e88a44e5780c3391aee50296bc00d18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:53 +0000
Subject: [PATCH 06/23] fix: a ResourceQueue that gains a server starts serving
 the agents that wait

---
 queueing_tool/queues/queue_extentions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 89f1f73..df09c09 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -108,6 +108,9 @@ class ResourceQueue(LossQueue):
         self.num_servers = n
         if n > self.max_servers:
             self.over_max += 1
+        while self.queue and self.num_system - len(self.queue) < n:
+            self._service_from_queue()
+        self._update_time()
 
     def next_event(self):
         """Simulates the queue forward one event.
-- 
2.43.0


From db440020ceb0b56eefacd0fdf6b16bb5ef95d018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 07/23] fix: QueueNetwork.copy keeps the edge indices, colors
 and positions of the graph

DiGraph.copy builds an empty QueueNetworkDiGraph and adds the nodes and
edges to it, which left edge_index empty and the colors and pos at None.
---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 3547f21..cac6e96 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -642,7 +642,7 @@ class QueueNetwork(object):
     def copy(self):
         """Returns a deep copy of itself."""
         net = QueueNetwork(None)
-        net.g = self.g.copy()
+        net.g = copy.deepcopy(self.g)
         net.max_agents = copy.deepcopy(self.max_agents)
         net.nV = copy.deepcopy(self.nV)
         net.nE = copy.deepcopy(self.nE)
-- 
2.43.0


From 913287c099c8e9a003df880d989daa42098654be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 08/23] fix: a tuple of edges selects those edges and not every
 queue

_get_queues fell through to all the queues when the edges were given as a
tuple of 2-tuples, or when one of them was not a 2-tuple.
---
 queueing_tool/network/queue_network.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index cac6e96..c98f041 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1610,12 +1610,8 @@ def _get_queues(g, queues, edge, edge_type):
 
     elif queues is None:
         if edge is not None:
-            if isinstance(edge, tuple):
-                if isinstance(edge[0], INT) and isinstance(edge[1], INT):
-                    queues = [g.edge_index[edge]]
-            elif isinstance(edge[0], collections.abc.Iterable):
-                if np.array([len(e) == 2 for e in edge]).all():
-                    queues = [g.edge_index[e] for e in edge]
+            if isinstance(edge[0], collections.abc.Iterable):
+                queues = [g.edge_index[tuple(e)] for e in edge]
             else:
                 queues = [g.edge_index[edge]]
         elif edge_type is not None:
-- 
2.43.0


From 75840663871e4a177fb8d7813242588809d6dbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 09/23] fix: set_transitions rejects invalid probabilities
 before it changes any

The probabilities of the out-edges themselves have to sum to one: values
given for targets that are not neighbours were counted and then dropped,
and the rows of a matrix were matched to the vertices by node order. A dict
with an invalid entry left the entries before it applied.
---
 queueing_tool/network/queue_network.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index c98f041..aca55dd 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1102,33 +1102,38 @@ class QueueNetwork(object):
         """
         if isinstance(mat, dict):
             for key, value in mat.items():
-                probs = list(value.values())
-
                 if key not in self.g.nodes:
                     msg = "One of the keys don't correspond to a vertex."
                     raise ValueError(msg)
-                elif len(self.out_edges[key]) > 0 and not np.isclose(sum(probs), 1):
+
+                probs = list(value.values())
+                routed = [value.get(e[1], 0) for e in self.g.out_edges(key)]
+
+                if len(self.out_edges[key]) > 0 and not np.isclose(sum(routed), 1):
                     msg = "Sum of transition probabilities at a vertex was not 1."
                     raise ValueError(msg)
                 elif (np.array(probs) < 0).any():
                     msg = "Some transition probabilities were negative."
                     raise ValueError(msg)
 
+            for key, value in mat.items():
                 for k, e in enumerate(sorted(self.g.out_edges(key))):
                     self._route_probs[key][k] = value.get(e[1], 0)
 
         elif isinstance(mat, np.ndarray):
-            non_terminal = np.array([self.g.out_degree(v) > 0 for v in self.g.nodes()])
             if mat.shape != (self.nV, self.nV):
                 msg = ("Matrix is the wrong shape, should "
                        "be {0} x {1}.").format(self.nV, self.nV)
                 raise ValueError(msg)
-            elif not np.allclose(np.sum(mat[non_terminal, :], axis=1), 1):
-                msg = "Sum of transition probabilities at a vertex was not 1."
-                raise ValueError(msg)
             elif (mat < 0).any():
                 raise ValueError("Some transition probabilities were negative.")
 
+            for k in range(self.nV):
+                routed = [mat[k, e[1]] for e in self.g.out_edges(k)]
+                if len(routed) > 0 and not np.isclose(sum(routed), 1):
+                    msg = "Sum of transition probabilities at a vertex was not 1."
+                    raise ValueError(msg)
+
             for k in range(self.nV):
                 for j, e in enumerate(sorted(self.g.out_edges(k))):
                     self._route_probs[k][j] = mat[k, e[1]]
-- 
2.43.0


From 0ebb4f16909f0e0402f6315083ae620990effa6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 10/23] fix: row v of QueueNetworkDiGraph.pos is the position
 of vertex v

The rows were in node insertion order, while lines_scatter_args looks them
up by vertex index.
---
 queueing_tool/graph/graph_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 656e13d..7345b9c 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -240,7 +240,7 @@ class QueueNetworkDiGraph(nx.DiGraph):
 
         pos = nx.get_node_attributes(self, name='pos')
         if len(pos) == self.number_of_nodes():
-            self.pos = np.array([pos[v] for v in self.nodes()])
+            self.pos = np.array([pos[v] for v in sorted(self.nodes())])
         else:
             self.pos = None
 
@@ -313,7 +313,7 @@ class QueueNetworkDiGraph(nx.DiGraph):
         if pos is None:
             pos = nx.spring_layout(self)
         nx.set_node_attributes(self, name='pos', values=pos)
-        self.pos = np.array([pos[v] for v in self.nodes()])
+        self.pos = np.array([pos[v] for v in sorted(self.nodes())])
 
     def get_edge_type(self, edge_type):
         """Returns all edges with the specified edge type.
-- 
2.43.0


From dc65dd17376341e3ce370396b1a3e8c121d7f64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 11/23] fix: an edge takes its color from the queue with its
 own edge index

_prepare_graph and reset_colors counted the edges in adjacency order, which
is not the order of the edge indices.
---
 queueing_tool/graph/graph_preparation.py | 3 ++-
 queueing_tool/network/queue_network.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/graph/graph_preparation.py b/queueing_tool/graph/graph_preparation.py
index e751d00..208734f 100644
--- a/queueing_tool/graph/graph_preparation.py
+++ b/queueing_tool/graph/graph_preparation.py
@@ -134,7 +134,8 @@ def _prepare_graph(g, g_colors, q_cls, q_arg, adjust_graph):
     if 'pos' not in g.vertex_properties():
         g.set_pos()
 
-    for k, e in enumerate(g.edges()):
+    for e in g.edges():
+        k = g.edge_index[e]
         g.set_ep(e, 'edge_pen_width', 1.25)
         g.set_ep(e, 'edge_marker_size', 8)
         if e[0] == e[1]:
diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index aca55dd..3e653db 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1013,7 +1013,8 @@ class QueueNetwork(object):
 
     def reset_colors(self):
         """Resets all edge and vertex colors to their default values."""
-        for k, e in enumerate(self.g.edges()):
+        for e in self.g.edges():
+            k = self.g.edge_index[e]
             self.g.set_ep(e, 'edge_color', self.edge2queue[k].colors['edge_color'])
         for v in self.g.nodes():
             self.g.set_vp(v, 'vertex_fill_color', self.colors['vertex_fill_color'])
-- 
2.43.0


From 655b258a93082678e84998837ce3b0df379b9403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 12/23] fix: every queue has a colors dict of its own

A queue filled the missing keys into the dict it was given, which is shared
by all the queues of an edge type and, by default, by every QueueNetwork
(default_q_colors), so a queue class could change the colors of another.
---
 queueing_tool/queues/queue_servers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index e2c4d95..5d212ec 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -326,11 +326,11 @@ class QueueServer(object):
             np.random.seed(seed)
 
         if colors is not None:
-            self.colors = colors
+            self.colors = dict(colors)
             for col in set(self._default_colors.keys()) - set(self.colors.keys()):
                 self.colors[col] = self._default_colors[col]
         else:
-            self.colors = self._default_colors
+            self.colors = dict(self._default_colors)
 
     @property
     def active(self):
-- 
2.43.0


From 0ea56f8ef56c700acf2487d4c188567b09bcb821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 13/23] fix: pushing to and popping from an empty PriorityQueue
 stays in bounds

push doubled an array of size zero and wrote past its end, and pop read
before the beginning of the array.
---
 queueing_tool/network/priority_queue.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/network/priority_queue.pyx b/queueing_tool/network/priority_queue.pyx
index 44c72f6..1858cb9 100644
--- a/queueing_tool/network/priority_queue.pyx
+++ b/queueing_tool/network/priority_queue.pyx
@@ -61,6 +61,9 @@ cdef class PriorityQueue:
         cdef double t
         cdef int k
 
+        if self.size == 0:
+            return None
+
         self.heappop()
         with nogil:
             while self.next_time != self.q_times[self.next_node]:
@@ -85,10 +88,10 @@ cdef class PriorityQueue:
             self.sorted_edges[self.size] = k
 
         else:
-            array.resize_smart(self.array_times, 2 * self.size)
-            array.resize_smart(self.array_edges, 2 * self.size)
+            array.resize_smart(self.array_times, 2 * self.size + 1)
+            array.resize_smart(self.array_edges, 2 * self.size + 1)
 
-            self.actual_size *= 2
+            self.actual_size = 2 * self.size + 1
             self.sorted_times = self.array_times
             self.sorted_edges = self.array_edges
 
-- 
2.43.0


From 64badc4d9e9cb92a4c948ee4fb7ded696db00d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 14/23] fix: an entry that the scheduler has used up is never
 used again

When the next event of a queue moved forward and back again its heap
entry was there twice; if the queue had nothing left to do after the first
one then the second counted as an event and moved the clock. time and
next_event_description also trusted entries that were out of date.
---
 queueing_tool/network/priority_queue.pyx |  2 ++
 queueing_tool/network/queue_network.py   | 12 ++++++------
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/queueing_tool/network/priority_queue.pyx b/queueing_tool/network/priority_queue.pyx
index 1858cb9..d1f647b 100644
--- a/queueing_tool/network/priority_queue.pyx
+++ b/queueing_tool/network/priority_queue.pyx
@@ -75,6 +75,8 @@ cdef class PriorityQueue:
         if self.size < 0:
             self.size += 1
             return None
+
+        self.q_times[self.next_node] = float('inf')
         return self.next_time, self.next_node
 
     @cython.boundscheck(False)
diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 3e653db..d59223c 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -402,8 +402,7 @@ class QueueNetwork(object):
     @property
     def time(self):
         if self._fancy_heap.size > 0:
-            e = self._fancy_heap.array_edges[0]
-            t = self.edge2queue[e]._time
+            t = min(q._time for q in self.edge2queue)
         else:
             t = np.infty
         return t
@@ -998,7 +997,7 @@ class QueueNetwork(object):
             The edge index of the edge that this event will occur at.
             If there are no events then ``None`` is returned.
         """
-        if self._fancy_heap.size == 0:
+        if self.time == np.infty:
             event_type = 'Nothing'
             edge_index = None
         else:
@@ -1306,11 +1305,11 @@ class QueueNetwork(object):
                 self._simulate_next_event(slow=False)
 
     def _simulate_next_event(self, slow=True):
-        if self._fancy_heap.size == 0:
+        q1k = self._fancy_heap.pop()
+        if q1k is None:
             self._t = np.infty
             return
 
-        q1k = self._fancy_heap.pop()
         q1t = q1k[0]
         q1 = self.edge2queue[q1k[1]]
         e1 = q1.edge[2]
@@ -1360,7 +1359,8 @@ class QueueNetwork(object):
             new_q2k = q2._key()
 
             if new_q2k[0] != q2k[0]:
-                self._fancy_heap.push(*new_q2k)
+                if new_q2k[0] < np.infty:
+                    self._fancy_heap.push(*new_q2k)
 
                 if new_q1k[0] < np.infty and new_q1k != new_q2k:
                     self._fancy_heap.push(*new_q1k)
-- 
2.43.0


From 36dba621b6a9b3d9bed85a8200ac00c4811babe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 15/23] fix: minimal_random_graph(1) returns a graph with one
 vertex

Vertices were only added along with an edge.
---
 queueing_tool/graph/graph_generation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queueing_tool/graph/graph_generation.py b/queueing_tool/graph/graph_generation.py
index 87b6cdc..fa51742 100644
--- a/queueing_tool/graph/graph_generation.py
+++ b/queueing_tool/graph/graph_generation.py
@@ -222,6 +222,8 @@ def minimal_random_graph(num_vertices, seed=None, **kwargs):
     unionF = UnionFind([k for k in range(num_vertices)])
 
     g = nx.Graph()
+    if num_vertices == 1:
+        g.add_node(0)
 
     for n1, n2, dummy in edges:
         unionF.union(n1, n2)
-- 
2.43.0


From 07b51973570e5a2cded2d4af0678dea3f27b4290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 16/23] fix: initialize does not add agents to a network that
 has max_agents

A second call activated more queues, each with a new agent, whatever the
number of agents that were already in the network.
---
 queueing_tool/network/queue_network.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index d59223c..89baa6d 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -976,8 +976,11 @@ class QueueNetwork(object):
             queues = queues[:self.max_agents]
 
         for ei in queues:
-            self.edge2queue[ei].set_active()
-            self.num_agents[ei] = self.edge2queue[ei]._num_total
+            q = self.edge2queue[ei]
+            if not q._active and np.sum(self.num_agents) > self.max_agents - 1:
+                continue
+            q.set_active()
+            self.num_agents[ei] = q._num_total
 
         keys = [q._key() for q in self.edge2queue if q._time < np.infty]
         self._fancy_heap = PriorityQueue(keys, self.nE)
-- 
2.43.0


From f3043c0d036b0adfed75d2814518a058b13c4ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 17/23] fix: a network can be built without q_args for any edge
 type

---
 queueing_tool/network/queue_network.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 89baa6d..d745d24 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -335,10 +335,10 @@ class QueueNetwork(object):
                 q_classes[k] = self.default_classes[k]
 
         if q_args is None:
-            q_args = {k: {} for k in range(5)}
-        else:
-            for k in set(q_classes.keys()) - set(q_args.keys()):
-                q_args[k] = {}
+            q_args = {}
+
+        for k in set(q_classes.keys()) - set(q_args.keys()):
+            q_args[k] = {}
 
         for key, args in q_args.items():
             if 'colors' not in args:
-- 
2.43.0


From 68ae9a9c7848d7921c04b3e1c7ccbe6278b6e001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 18/23] fix: draw_graph passes facecolor, edgecolor and
 orientation to savefig

---
 queueing_tool/graph/graph_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 7345b9c..e7aa982 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -183,9 +183,9 @@ def adjacency2graph(adjacency, edge_type=None, adjust=1, **kwargs):
 
 SAVEFIG_KWARGS = set([
     'dpi',
-    'facecolorw',
-    'edgecolorw',
-    'orientationportrait',
+    'facecolor',
+    'edgecolor',
+    'orientation',
     'papertype',
     'format',
     'transparent',
-- 
2.43.0


From 8f2c88f8fc309662b79d675c95195ae0010bcc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:24 +0000
Subject: [PATCH 19/23] fix: set_types_rank chooses no vertex when pType2 asks
 for none

---
 queueing_tool/graph/graph_generation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/graph/graph_generation.py b/queueing_tool/graph/graph_generation.py
index fa51742..7128a20 100644
--- a/queueing_tool/graph/graph_generation.py
+++ b/queueing_tool/graph/graph_generation.py
@@ -378,13 +378,16 @@ def set_types_rank(g, rank, pType2=0.1, pType3=0.1, seed=None, **kwargs):
 
     tmp = np.sort(np.array(rank))
     nDests = int(np.ceil(g.number_of_nodes() * pType2))
-    dests = np.where(rank >= tmp[-nDests])[0]
+    if nDests > 0:
+        dests = np.where(rank >= tmp[-nDests])[0]
+    else:
+        dests = np.array([], int)
 
     if 'pos' not in g.vertex_properties():
         g.set_pos()
 
-    dest_pos = np.array([g.vp(v, 'pos') for v in dests])
-    nFCQ = int(pType3 * g.number_of_nodes())
+    dest_pos = np.array([g.vp(v, 'pos') for v in dests]).reshape(-1, 2)
+    nFCQ = int(pType3 * g.number_of_nodes()) if nDests > 0 else 0
     min_g_dist = np.ones(nFCQ) * np.infty
     ind_g_dist = np.ones(nFCQ, int)
 
-- 
2.43.0


From dc586c16fa412bc34952841fb769a4a57ec640c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 20/23] fix: InfoQueue asks an agent that arrives at the time
 of a departure

---
 queueing_tool/queues/queue_extentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index df09c09..3104822 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -318,7 +318,7 @@ class InfoQueue(LossQueue):
             self._time = self._arrivals[0]._time
 
     def next_event(self):
-        if self._arrivals[0]._time < self._departures[0]._time:
+        if self._arrivals[0]._time <= self._departures[0]._time:
             self.extract_information(self._arrivals[0])
 
         return super(InfoQueue, self).next_event()
-- 
2.43.0


From 52c54ceb8e92e8b70f63d91700fc35a37548df40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:40 +0000
Subject: [PATCH 21/23] fix: InfoAgent counts a wait once, when it departs

---
 queueing_tool/queues/queue_extentions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 3104822..2fa6304 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -238,7 +238,8 @@ class InfoAgent(Agent):
 
             # stamp this information
             n = queue.edge[2]    # This is the edge_index of the queue
-            if self.agent_id in queue.data:
+            departing = len(args) == 0 or args[0] == 2
+            if departing and self.agent_id in queue.data:
                 tmp = queue.data[self.agent_id][-1][1] - queue.data[self.agent_id][-1][0]
                 self.stats[n, 0] = self.stats[n, 0] + tmp
                 self.stats[n, 1] += 1 if tmp > 0 else 0
-- 
2.43.0


From 602e7766b855ebae890df5e65931b527ee9308d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:40 +0000
Subject: [PATCH 22/23] fix: the color of a loop goes to its own vertex

---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index d745d24..781eb4c 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1593,7 +1593,7 @@ class QueueNetwork(object):
                 self.g.set_ep(pe, 'edge_color', q._current_color(1))
                 self.g.set_vp(pv, 'vertex_color', q._current_color(2))
                 if q.edge[3] != 0:
-                    self.g.set_vp(v, 'vertex_fill_color', q._current_color())
+                    self.g.set_vp(pv, 'vertex_fill_color', q._current_color())
 
             else:
                 self.g.set_ep(pe, 'edge_color', q._current_color())
-- 
2.43.0


From df12b43abb55c19cdb7894070207fa1ed1721834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:40 +0000
Subject: [PATCH 23/23] fix: a vertex with a loop of type 0 is shaded whichever
 edge comes first

---
 queueing_tool/network/queue_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 781eb4c..0fd860f 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1550,6 +1550,8 @@ class QueueNetwork(object):
                 self.g.set_vp(v, 'vertex_color', q._current_color(2))
                 if q.edge[3] != 0:
                     self.g.set_vp(v, 'vertex_fill_color', q._current_color())
+                elif do[v]:
+                    self._update_vertex_color(v)
                 do[v] = False
             else:
                 self.g.set_ep(e, 'edge_color', q._current_color())
-- 
2.43.0

