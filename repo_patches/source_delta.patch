From 38421e9b3fbedc0b0b12da847d55404b506373ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 01/47] fix: InfoQueue reaching deactive_t raised
 AttributeError

InfoQueue._add_arrival assigned to the read-only ``active`` property.
---
 queueing_tool/queues/queue_extentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 2a5150f..e49406f 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -313,7 +313,7 @@ class InfoQueue(LossQueue):
                 self._next_ct = self.arrival_f(self._current_t)
 
                 if self._next_ct >= self.deactive_t:
-                    self.active = False
+                    self._active = False
                     return
 
                 self._num_total += 1
-- 
2.43.0


From 70f4291ee5c00d662c4b67999c2cf034bf13d2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 02/47] fix: set_num_servers put too many agents into service

The number of agents to start serving was computed from the change in
the number of servers instead of the number of free servers, so after a
decrease with busy servers a later increase served more agents than
there were servers (and inf -> inf raised a TypeError).
---
 queueing_tool/queues/queue_servers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 6a196cc..51978fe 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -690,7 +690,11 @@ class QueueServer(object):
             the_str = "n must be a positive integer or infinity.\n{0}"
             raise ValueError(the_str.format(str(self)))
         else:
-            agents_to_queue = max(min(n - self.num_servers, len(self.queue)), 0)
+            # There can be more agents in service than num_servers if the
+            # number of servers was decreased while agents were in service.
+            num_queued = len(self.queue)
+            num_servicing = self.num_system - num_queued
+            agents_to_queue = max(min(n - num_servicing, num_queued), 0)
 
             for _ in range(agents_to_queue):
                 self._service_from_queue()
-- 
2.43.0


From 9ae19a5414aaef6aab641cac656c9c61ed948e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 03/47] fix: re-activating a queue exceeded its active_cap

set_active() created one more outside arrival every time it was called
after the queue had already created active_cap arrivals.
---
 queueing_tool/queues/queue_servers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 51978fe..57d32a1 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -658,7 +658,7 @@ class QueueServer(object):
         """Changes the ``active`` attribute to True. Agents may now
         arrive from outside the network.
         """
-        if not self._active:
+        if not self._active and self._oArrivals < self.active_cap:
             self._active = True
             self._add_arrival()
 
-- 
2.43.0


From f8323b42b8065c240f570882b904efa4e0e73773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 04/47] fix: edge given as a tuple of 2-tuples selected every
 queue

_get_queues fell through to all the queues in the network, so e.g.
clear_data(edge=((0, 1), (1, 2))) wiped every queue.
---
 queueing_tool/network/queue_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 3547f21..bb0e253 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1613,6 +1613,8 @@ def _get_queues(g, queues, edge, edge_type):
             if isinstance(edge, tuple):
                 if isinstance(edge[0], INT) and isinstance(edge[1], INT):
                     queues = [g.edge_index[edge]]
+                else:
+                    queues = [g.edge_index[e] for e in edge]
             elif isinstance(edge[0], collections.abc.Iterable):
                 if np.array([len(e) == 2 for e in edge]).all():
                     queues = [g.edge_index[e] for e in edge]
-- 
2.43.0


From 04c541aea88ffdb392fbab753ecb9229ef022347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 05/47] fix: QueueNetwork.copy() dropped the graph's edge index

networkx rebuilds the graph with add_edges_from, so the copy had an empty
edge_index, no positions and no color arrays; clear(), draw() and every
lookup by edge or edge type raised a KeyError on the copy.
---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index bb0e253..18eabed 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -642,7 +642,7 @@ class QueueNetwork(object):
     def copy(self):
         """Returns a deep copy of itself."""
         net = QueueNetwork(None)
-        net.g = self.g.copy()
+        net.g = copy.deepcopy(self.g)
         net.max_agents = copy.deepcopy(self.max_agents)
         net.nV = copy.deepcopy(self.nV)
         net.nE = copy.deepcopy(self.nE)
-- 
2.43.0


From b13807a9c9d42f0526a48b5fe2c851cbecb8f672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 06/47] fix: set_transitions checked the wrong rows of a matrix

The mask of non-terminal vertices was in node insertion order, but the
rows of the matrix are in vertex index order.
---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 18eabed..37db348 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1118,7 +1118,7 @@ class QueueNetwork(object):
                     self._route_probs[key][k] = value.get(e[1], 0)
 
         elif isinstance(mat, np.ndarray):
-            non_terminal = np.array([self.g.out_degree(v) > 0 for v in self.g.nodes()])
+            non_terminal = np.array([self.g.out_degree(v) > 0 for v in range(self.nV)])
             if mat.shape != (self.nV, self.nV):
                 msg = ("Matrix is the wrong shape, should "
                        "be {0} x {1}.").format(self.nV, self.nV)
-- 
2.43.0


From b3760f902509e6c363ca54f4c409aaf39511ccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 07/47] fix: animations painted a loop's color on the wrong
 vertex

---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 37db348..8383d32 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1584,7 +1584,7 @@ class QueueNetwork(object):
                 self.g.set_ep(pe, 'edge_color', q._current_color(1))
                 self.g.set_vp(pv, 'vertex_color', q._current_color(2))
                 if q.edge[3] != 0:
-                    self.g.set_vp(v, 'vertex_fill_color', q._current_color())
+                    self.g.set_vp(pv, 'vertex_fill_color', q._current_color())
 
             else:
                 self.g.set_ep(pe, 'edge_color', q._current_color())
-- 
2.43.0


From de4e958bf8824504c5ce22a2bec270d5a7672d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 08/47] fix: edges were given the default color of another
 edge's queue

_prepare_graph and reset_colors used an edge's position in g.edges() as
its edge index.
---
 queueing_tool/graph/graph_preparation.py | 3 ++-
 queueing_tool/network/queue_network.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/graph/graph_preparation.py b/queueing_tool/graph/graph_preparation.py
index e751d00..208734f 100644
--- a/queueing_tool/graph/graph_preparation.py
+++ b/queueing_tool/graph/graph_preparation.py
@@ -134,7 +134,8 @@ def _prepare_graph(g, g_colors, q_cls, q_arg, adjust_graph):
     if 'pos' not in g.vertex_properties():
         g.set_pos()
 
-    for k, e in enumerate(g.edges()):
+    for e in g.edges():
+        k = g.edge_index[e]
         g.set_ep(e, 'edge_pen_width', 1.25)
         g.set_ep(e, 'edge_marker_size', 8)
         if e[0] == e[1]:
diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 8383d32..5bf5dee 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1013,7 +1013,8 @@ class QueueNetwork(object):
 
     def reset_colors(self):
         """Resets all edge and vertex colors to their default values."""
-        for k, e in enumerate(self.g.edges()):
+        for e in self.g.edges():
+            k = self.g.edge_index[e]
             self.g.set_ep(e, 'edge_color', self.edge2queue[k].colors['edge_color'])
         for v in self.g.nodes():
             self.g.set_vp(v, 'vertex_fill_color', self.colors['vertex_fill_color'])
-- 
2.43.0


From 9e3df67436bd16c4a4099c013067e38e73be0ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 09/47] fix: vertices were drawn at the position of another
 vertex

The rows of QueueNetworkDiGraph.pos were in node insertion order but are
used as if row v is the position of vertex v.
---
 queueing_tool/graph/graph_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 656e13d..7345b9c 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -240,7 +240,7 @@ class QueueNetworkDiGraph(nx.DiGraph):
 
         pos = nx.get_node_attributes(self, name='pos')
         if len(pos) == self.number_of_nodes():
-            self.pos = np.array([pos[v] for v in self.nodes()])
+            self.pos = np.array([pos[v] for v in sorted(self.nodes())])
         else:
             self.pos = None
 
@@ -313,7 +313,7 @@ class QueueNetworkDiGraph(nx.DiGraph):
         if pos is None:
             pos = nx.spring_layout(self)
         nx.set_node_attributes(self, name='pos', values=pos)
-        self.pos = np.array([pos[v] for v in self.nodes()])
+        self.pos = np.array([pos[v] for v in sorted(self.nodes())])
 
     def get_edge_type(self, edge_type):
         """Returns all edges with the specified edge type.
-- 
2.43.0


From 765a140327dc48ab7468668c6e8004840ebce518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:39 +0000
Subject: [PATCH 10/47] fix: minimal_random_graph(1) returned a graph without
 vertices

---
 queueing_tool/graph/graph_generation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queueing_tool/graph/graph_generation.py b/queueing_tool/graph/graph_generation.py
index 87b6cdc..faca220 100644
--- a/queueing_tool/graph/graph_generation.py
+++ b/queueing_tool/graph/graph_generation.py
@@ -229,6 +229,7 @@ def minimal_random_graph(num_vertices, seed=None, **kwargs):
         if unionF.nClusters == 1:
             break
 
+    g.add_nodes_from(range(num_vertices))
     pos = {j: p for j, p in enumerate(points)}
     g = QueueNetworkDiGraph(g.to_directed())
     g.set_pos(pos)
-- 
2.43.0


From 609c5f563bd6d8155e43e8866277f356e21318a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 11/47] fix: network counted events that never happened and
 misreported time

The event heap can hold several entries for one event. If the queue had
nothing left to do after that event the left over entry was simulated as
an event too (num_events was incremented but nothing happened), and
``time`` reported the time of whichever queue the stale entry at the top
of the heap pointed to.
---
 queueing_tool/network/queue_network.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 5bf5dee..e4cbf9e 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -401,9 +401,9 @@ class QueueNetwork(object):
 
     @property
     def time(self):
+        # The top of the heap can be an out of date entry.
         if self._fancy_heap.size > 0:
-            e = self._fancy_heap.array_edges[0]
-            t = self.edge2queue[e]._time
+            t = min(q._time for q in self.edge2queue)
         else:
             t = np.infty
         return t
@@ -1007,6 +1007,9 @@ class QueueNetwork(object):
             e = s[0][1]
             q = self.edge2queue[e]
 
+            if q._time == np.infty:
+                return 'Nothing', None
+
             event_type = 'Arrival' if q.next_event_description() == 1 else 'Departure'
             edge_index = q.edge[2]
         return event_type, edge_index
@@ -1301,11 +1304,19 @@ class QueueNetwork(object):
                 self._simulate_next_event(slow=False)
 
     def _simulate_next_event(self, slow=True):
-        if self._fancy_heap.size == 0:
+        # The heap can hold several entries for the same event, so entries
+        # that aren't the next event of their queue need to be skipped.
+        q1k = None
+        while self._fancy_heap.size > 0:
+            q1k = self._fancy_heap.pop()
+            if q1k is None or self.edge2queue[q1k[1]]._time == q1k[0]:
+                break
+            q1k = None
+
+        if q1k is None:
             self._t = np.infty
             return
 
-        q1k = self._fancy_heap.pop()
         q1t = q1k[0]
         q1 = self.edge2queue[q1k[1]]
         e1 = q1.edge[2]
-- 
2.43.0


From 0ad9c8c79e687644aa31d98ca04e9b7718509a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 12/47] fix: PriorityQueue accessed memory out of bounds when
 empty

Pushing onto a queue created without keys grew the arrays from 0 to 0 and
then wrote past their end, and popping an empty queue read index -1.
---
 queueing_tool/network/priority_queue.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/network/priority_queue.pyx b/queueing_tool/network/priority_queue.pyx
index 44c72f6..79a0cd2 100644
--- a/queueing_tool/network/priority_queue.pyx
+++ b/queueing_tool/network/priority_queue.pyx
@@ -61,6 +61,9 @@ cdef class PriorityQueue:
         cdef double t
         cdef int k
 
+        if self.size == 0:
+            return None
+
         self.heappop()
         with nogil:
             while self.next_time != self.q_times[self.next_node]:
@@ -85,10 +88,11 @@ cdef class PriorityQueue:
             self.sorted_edges[self.size] = k
 
         else:
-            array.resize_smart(self.array_times, 2 * self.size)
-            array.resize_smart(self.array_edges, 2 * self.size)
+            self.actual_size = max(2 * self.size, 1)
+
+            array.resize_smart(self.array_times, self.actual_size)
+            array.resize_smart(self.array_edges, self.actual_size)
 
-            self.actual_size *= 2
             self.sorted_times = self.array_times
             self.sorted_edges = self.array_edges
 
-- 
2.43.0


From 50a5d91acfa76260872616ffb9e4b461290667bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 13/47] fix: ResourceAgents took servers on arrival and at
 service start

queue_action is called on arrival, at service start and on departure, but
a ResourceAgent should only take a resource when departing. They took two
servers per visit and were left queueing forever for a server that they
had themselves removed.
---
 queueing_tool/queues/queue_extentions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index e49406f..ffb25fb 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -43,7 +43,8 @@ class ResourceAgent(Agent):
             The instance of the queue that the ``ResourceAgent`` will
             interact with.
         """
-        if isinstance(queue, ResourceQueue):
+        departing = len(args) == 0 or args[0] == 2
+        if departing and isinstance(queue, ResourceQueue):
             if self._has_resource:
                 self._has_resource = False
                 self._had_resource = True
-- 
2.43.0


From 81d236ed2ac502f26c9ba999bbf59e4e6aa39a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 14/47] fix: blocked ResourceAgent stopped a ResourceQueue's
 outside arrivals

A ResourceAgent without a resource should be treated as any other agent
arriving at a LossQueue. Instead, when it was blocked the next outside
arrival was never scheduled, it was counted as an arrival, and the
queue's buffer was ignored.
---
 queueing_tool/queues/queue_extentions.py | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index ffb25fb..b69e218 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -153,26 +153,8 @@ class ResourceQueue(LossQueue):
                     else:
                         self._time = self._departures[0]._time
 
-                elif self.num_system < self.num_servers:
-                    super(ResourceQueue, self).next_event()
-
                 else:
-                    self.num_blocked += 1
-                    self._num_arrivals += 1
-                    self._num_total -= 1
-                    arrival = heappop(self._arrivals)
-                    self._current_t = arrival._time
-
-                    if self.collect_data:
-                        if arrival.agent_id not in self.data:
-                            self.data[arrival.agent_id] = [[arrival._time, 0, 0, len(self.queue), self.num_system]]
-                        else:
-                            self.data[arrival.agent_id].append([arrival._time, 0, 0, len(self.queue), self.num_system])
-
-                    if self._arrivals[0]._time < self._departures[0]._time:
-                        self._time = self._arrivals[0]._time
-                    else:
-                        self._time = self._departures[0]._time
+                    super(ResourceQueue, self).next_event()
         else:
             return super(ResourceQueue, self).next_event()
 
-- 
2.43.0


From 4522b2b99ff4dc4636d1fa9aa49e0bda9bb48a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 15/47] fix: resources deposited at a ResourceQueue were not
 used

Agents waiting in line stayed there when a server was added, forever if
no one was being served. Also, over_max counted servers being taken.
---
 queueing_tool/queues/queue_extentions.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index b69e218..1813088 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -105,10 +105,19 @@ class ResourceQueue(LossQueue):
         return my_str.format(*arg)
 
     def set_num_servers(self, n):
-        self.num_servers = n
-        if n > self.max_servers:
+        if n > self.max_servers and n > self.num_servers:
             self.over_max += 1
 
+        self.num_servers = n
+
+        # Agents waiting in line are served if there are free servers.
+        num_queued = len(self.queue)
+        num_servicing = self.num_system - num_queued
+        for _ in range(max(min(n - num_servicing, num_queued), 0)):
+            self._service_from_queue()
+
+        self._update_time()
+
     def next_event(self):
         """Simulates the queue forward one event.
 
-- 
2.43.0


From 8b5f9208ccc1d70f27f5c35cae4ddfedd5531128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 16/47] fix: events of a queue changed between simulate calls
 were misplaced

If a queue of an initialized network was changed by other means than
simulating the network, e.g. with set_num_servers, its next event was not
in the event heap: it was simulated too late and with the wrong time, or
not at all.
---
 queueing_tool/network/queue_network.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index e4cbf9e..753fd3e 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -563,6 +563,7 @@ class QueueNetwork(object):
             if key in animation_args:
                 animation_args[key] = value
 
+        self._update_heap()
         animation = FuncAnimation(**animation_args)
         if 'filename' not in kwargs:
             plt.ioff()
@@ -1295,6 +1296,8 @@ class QueueNetwork(object):
             msg = ("Network has not been initialized. "
                    "Call '.initialize()' first.")
             raise QueueingToolError(msg)
+        self._update_heap()
+
         if t is None:
             for dummy in range(n):
                 self._simulate_next_event(slow=False)
@@ -1303,6 +1306,15 @@ class QueueNetwork(object):
             while self._t < now + t:
                 self._simulate_next_event(slow=False)
 
+    def _update_heap(self):
+        # The next event of a queue changes when, for example, its number
+        # of servers is changed between two calls to simulate.
+        times = self._fancy_heap.q_map()
+        for q in self.edge2queue:
+            key = q._key()
+            if key[0] < np.infty and key[0] != times[key[1]]:
+                self._fancy_heap.push(*key)
+
     def _simulate_next_event(self, slow=True):
         # The heap can hold several entries for the same event, so entries
         # that aren't the next event of their queue need to be skipped.
@@ -1312,6 +1324,7 @@ class QueueNetwork(object):
             if q1k is None or self.edge2queue[q1k[1]]._time == q1k[0]:
                 break
             q1k = None
+            self._update_heap()
 
         if q1k is None:
             self._t = np.infty
-- 
2.43.0


From 86dca27bf357795a24b492eef31e1b5627bc372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 17/47] fix: network counted an event after the last resource
 was deposited

Depositing a resource can leave a queue without events. Its next event
time, infinity, was put on the event heap and later counted as an event.
---
 queueing_tool/network/queue_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 753fd3e..2689f5e 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1379,7 +1379,8 @@ class QueueNetwork(object):
             new_q2k = q2._key()
 
             if new_q2k[0] != q2k[0]:
-                self._fancy_heap.push(*new_q2k)
+                if new_q2k[0] < np.infty:
+                    self._fancy_heap.push(*new_q2k)
 
                 if new_q1k[0] < np.infty and new_q1k != new_q2k:
                     self._fancy_heap.push(*new_q1k)
-- 
2.43.0


From 5b2ce3f41c630e771b8ab3b5bdf8f42b4bef5645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 18/47] fix: clear() kept the data of terminal queues

---
 queueing_tool/queues/queue_servers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 57d32a1..2a26d56 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -957,4 +957,4 @@ class NullQueue(QueueServer):
         return color
 
     def clear(self):
-        pass
+        self.data = {}
-- 
2.43.0


From cc768200c93e8c7cd1cf56431147ae972eadf2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 19/47] fix: PriorityQueue accessed memory out of bounds for an
 unknown index

---
 queueing_tool/network/priority_queue.pyx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/queueing_tool/network/priority_queue.pyx b/queueing_tool/network/priority_queue.pyx
index 79a0cd2..799ce7a 100644
--- a/queueing_tool/network/priority_queue.pyx
+++ b/queueing_tool/network/priority_queue.pyx
@@ -37,6 +37,8 @@ cdef class PriorityQueue:
         self.q_times = array.array('d', [float('inf') for k in range(n)])
 
         for key in keys:
+            if not 0 <= key[1] < n:
+                raise IndexError("index {0} is not in range({1})".format(key[1], n))
             self.q_times[key[1]] = key[0]
 
     @property
@@ -82,6 +84,9 @@ cdef class PriorityQueue:
     @cython.nonecheck(False)
     def push(self, double t, int k):
 
+        if k < 0 or k >= self.q_times.shape[0]:
+            raise IndexError("index {0} is not in range({1})".format(k, self.q_times.shape[0]))
+
         self.q_times[k] = t
         if self.size < self.actual_size:
             self.sorted_times[self.size] = t
-- 
2.43.0


From eb309879b7d516f1f22af6ee1103298be1e106f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 20/47] fix: network time ignored a queue activated after it
 drained

---
 queueing_tool/network/queue_network.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 2689f5e..b2dec84 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -401,12 +401,8 @@ class QueueNetwork(object):
 
     @property
     def time(self):
-        # The top of the heap can be an out of date entry.
-        if self._fancy_heap.size > 0:
-            t = min(q._time for q in self.edge2queue)
-        else:
-            t = np.infty
-        return t
+        # The heap can be out of date.
+        return min([q._time for q in self.edge2queue] + [np.infty])
 
     def animate(self, out=None, t=None, line_kwargs=None,
                 scatter_kwargs=None, **kwargs):
@@ -999,7 +995,7 @@ class QueueNetwork(object):
             The edge index of the edge that this event will occur at.
             If there are no events then ``None`` is returned.
         """
-        if self._fancy_heap.size == 0:
+        if self.time == np.infty:
             event_type = 'Nothing'
             edge_index = None
         else:
@@ -1008,9 +1004,6 @@ class QueueNetwork(object):
             e = s[0][1]
             q = self.edge2queue[e]
 
-            if q._time == np.infty:
-                return 'Nothing', None
-
             event_type = 'Arrival' if q.next_event_description() == 1 else 'Departure'
             edge_index = q.edge[2]
         return event_type, edge_index
-- 
2.43.0


From 027742e08586089ee989f6fa5f3bbda4abbabb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 21/47] fix: adjacency2graph raised KeyError for an empty dict

---
 queueing_tool/graph/graph_wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 7345b9c..fca948d 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -28,6 +28,9 @@ def _dict2dict(adj_dict):
     """Takes a dictionary based representation of an adjacency list
     and returns a dict of dicts based representation.
     """
+    if len(adj_dict) == 0:
+        return adj_dict
+
     item = adj_dict.popitem()
     adj_dict[item[0]] = item[1]
     if not isinstance(item[1], dict):
-- 
2.43.0


From 95896c03bfc2d3c9277778fffe6bb072ac2c59b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:38 +0000
Subject: [PATCH 22/47] fix: QueueNetwork raised KeyError for untyped edges if
 not adjusted

---
 queueing_tool/graph/graph_preparation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/queueing_tool/graph/graph_preparation.py b/queueing_tool/graph/graph_preparation.py
index 208734f..26b9dc7 100644
--- a/queueing_tool/graph/graph_preparation.py
+++ b/queueing_tool/graph/graph_preparation.py
@@ -119,6 +119,10 @@ def _prepare_graph(g, g_colors, q_cls, q_arg, adjust_graph):
         if len(pos) > 0:
             g.set_pos(pos)
 
+    for e in g.edges():
+        if g.ep(e, 'edge_type') is None:
+            g.set_ep(e, 'edge_type', 1)
+
     g.new_vertex_property('vertex_color')
     g.new_vertex_property('vertex_fill_color')
     g.new_vertex_property('vertex_pen_width')
-- 
2.43.0


From d1262d88687c423e1b477438d42d55b7d56b7fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 23/47] fix: QueueNetwork raised KeyError for a type with a
 class if q_args was not given

---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index b2dec84..33281bd 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -335,7 +335,7 @@ class QueueNetwork(object):
                 q_classes[k] = self.default_classes[k]
 
         if q_args is None:
-            q_args = {k: {} for k in range(5)}
+            q_args = {k: {} for k in q_classes}
         else:
             for k in set(q_classes.keys()) - set(q_args.keys()):
                 q_args[k] = {}
-- 
2.43.0


From 1c65b5ad7852598173d373f8ff529c90f52ba6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:21 +0000
Subject: [PATCH 24/47] fix: show_type raised KeyError for a loop ResourceQueue
 with own colors

---
 queueing_tool/network/queue_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 33281bd..4bbc4b9 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1220,7 +1220,7 @@ class QueueNetwork(object):
             if self.g.is_edge(e) and self.g.ep(e, 'edge_type') == edge_type:
                 ei = self.g.edge_index[e]
                 self.g.set_vp(v, 'vertex_fill_color', self.colors['vertex_highlight'])
-                self.g.set_vp(v, 'vertex_color', self.edge2queue[ei].colors['vertex_color'])
+                self.g.set_vp(v, 'vertex_color', self.edge2queue[ei]._current_color(2))
             else:
                 self.g.set_vp(v, 'vertex_fill_color', self.colors['vertex_inactive'])
                 self.g.set_vp(v, 'vertex_color', [0, 0, 0, 0.9])
-- 
2.43.0


From 5312fa0347e8a5853580d5684230df2023ce6d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:21 +0000
Subject: [PATCH 25/47] fix: drawings kept old colors of terminal and isolated
 vertices

---
 queueing_tool/network/queue_network.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 4bbc4b9..a6f8297 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1560,7 +1560,7 @@ class QueueNetwork(object):
                 self.g.set_vp(v, 'vertex_color', q._current_color(2))
                 if q.edge[3] != 0:
                     self.g.set_vp(v, 'vertex_fill_color', q._current_color())
-                do[v] = False
+                    do[v] = False
             else:
                 self.g.set_ep(e, 'edge_color', q._current_color())
                 if do[v]:
@@ -1570,6 +1570,10 @@ class QueueNetwork(object):
                     self._update_vertex_color(q.edge[0])
                     do[q.edge[0]] = False
 
+        for v in self.g.nodes():
+            if do[v]:
+                self._update_vertex_color(v)
+
     def _update_vertex_color(self, v):
         ee = (v, v)
         ee_is_edge = self.g.is_edge(ee)
-- 
2.43.0


From ed1c7ea1eacd57f654966e09765172ef00479984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:34 +0000
Subject: [PATCH 26/47] fix: an agent could be lost if it joined a queue just
 when an outside arrival was due

---
 queueing_tool/queues/queue_extentions.py | 3 ++-
 queueing_tool/queues/queue_servers.py    | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 1813088..5f2b2da 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -299,7 +299,8 @@ class InfoQueue(LossQueue):
     def _add_arrival(self, agent=None):
         if agent is not None:
             self._num_total += 1
-            heappush(self._arrivals, agent)
+            self._arrivals.insert(0, agent)
+            self._arrivals.sort()
         else:
             if self._current_t >= self._next_ct:
                 self._next_ct = self.arrival_f(self._current_t)
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 2a26d56..b6b02d7 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -357,8 +357,11 @@ class QueueServer(object):
 
     def _add_arrival(self, agent=None):
         if agent is not None:
+            # The agent arrives now: it goes ahead of an arrival from outside
+            # the network that is scheduled for the same time.
             self._num_total += 1
-            heappush(self._arrivals, agent)
+            self._arrivals.insert(0, agent)
+            self._arrivals.sort()
         else:
             if self._current_t >= self._next_ct:
                 self._next_ct = self.arrival_f(self._current_t)
-- 
2.43.0


From b70c3bf23cb8f66a63599bf65dee064b467dde6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 27/47] fix: an InfoQueue ignored an arriving agent's
 information at a simultaneous departure

---
 queueing_tool/queues/queue_extentions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 5f2b2da..7e34d08 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -323,7 +323,7 @@ class InfoQueue(LossQueue):
             self._time = self._arrivals[0]._time
 
     def next_event(self):
-        if self._arrivals[0]._time < self._departures[0]._time:
+        if self.next_event_description() == 1:
             self.extract_information(self._arrivals[0])
 
         return super(InfoQueue, self).next_event()
-- 
2.43.0


From 769419637f57f4032627afba55e08d2695d5f074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 28/47] fix: accept float('inf') and numpy's infinities as the
 number of servers

---
 queueing_tool/queues/queue_servers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index b6b02d7..ef3b27d 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -78,6 +78,11 @@ def poisson_random_measure(t, rate, rate_max):
     return t
 
 
+def _is_integer_or_infinity(n):
+    # There are many infinities, numpy.float64('inf') and float('inf') too.
+    return isinstance(n, numbers.Integral) or (isinstance(n, numbers.Real) and n == infty)
+
+
 class QueueServer(object):
     """The base queue-server class.
 
@@ -281,7 +286,7 @@ class QueueServer(object):
                  deactive_t=infty, colors=None, seed=None,
                  coloring_sensitivity=2, **kwargs):
 
-        if not isinstance(num_servers, numbers.Integral) and num_servers is not infty:
+        if not _is_integer_or_infinity(num_servers):
             msg = "num_servers must be an integer or infinity."
             raise TypeError(msg)
         elif num_servers <= 0:
@@ -686,7 +691,7 @@ class QueueServer(object):
         ValueError
             If ``n`` is not positive.
         """
-        if not isinstance(n, numbers.Integral) and n is not infty:
+        if not _is_integer_or_infinity(n):
             the_str = "n must be an integer or infinity.\n{0}"
             raise TypeError(the_str.format(str(self)))
         elif n <= 0:
-- 
2.43.0


From d86005b1b0423180835cef931c88914646166101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 29/47] fix: give each queue its own colors and leave the
 colors argument as it was

---
 queueing_tool/queues/queue_servers.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index ef3b27d..85824c3 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -330,12 +330,10 @@ class QueueServer(object):
         if isinstance(seed, numbers.Integral):
             np.random.seed(seed)
 
+        # Each queue has its own colors.
+        self.colors = copy.deepcopy(self._default_colors)
         if colors is not None:
-            self.colors = colors
-            for col in set(self._default_colors.keys()) - set(self.colors.keys()):
-                self.colors[col] = self._default_colors[col]
-        else:
-            self.colors = self._default_colors
+            self.colors.update(copy.deepcopy(colors))
 
     @property
     def active(self):
-- 
2.43.0


From 42ded4243dc39223426311727a18e30a26f03b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 30/47] fix: QueueNetwork leaves its colors, q_classes and
 q_args arguments as they were

---
 queueing_tool/network/queue_network.py | 33 ++++++++++----------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index a6f8297..cb09858 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -319,26 +319,19 @@ class QueueNetwork(object):
         self._fancy_heap = PriorityQueue()
         self._blocking = True if blocking.lower() != 'rs' else False
 
-        if colors is None:
-            colors = {}
-
-        for key, value in self.default_colors.items():
-            if key not in colors:
-                colors[key] = value
-
-        self.colors = colors
-
-        if q_classes is None:
-            q_classes = self.default_classes
-        else:
-            for k in set(self.default_classes.keys()) - set(q_classes.keys()):
-                q_classes[k] = self.default_classes[k]
-
-        if q_args is None:
-            q_args = {k: {} for k in q_classes}
-        else:
-            for k in set(q_classes.keys()) - set(q_args.keys()):
-                q_args[k] = {}
+        # The arguments are copied, they may be used for other networks.
+        self.colors = copy.deepcopy(self.default_colors)
+        if colors is not None:
+            self.colors.update(copy.deepcopy(colors))
+
+        classes = dict(self.default_classes)
+        if q_classes is not None:
+            classes.update(q_classes)
+        q_classes = classes
+
+        q_args = {} if q_args is None else {k: dict(v) for k, v in q_args.items()}
+        for k in set(q_classes.keys()) - set(q_args.keys()):
+            q_args[k] = {}
 
         for key, args in q_args.items():
             if 'colors' not in args:
-- 
2.43.0


From 87a145765e9ee2bf218f74824f450e08ae98fca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:15 +0000
Subject: [PATCH 31/47] fix: a network that does not adjust its graph leaves
 the given graph as it was

---
 queueing_tool/graph/graph_preparation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queueing_tool/graph/graph_preparation.py b/queueing_tool/graph/graph_preparation.py
index 26b9dc7..1ab1bfe 100644
--- a/queueing_tool/graph/graph_preparation.py
+++ b/queueing_tool/graph/graph_preparation.py
@@ -118,6 +118,8 @@ def _prepare_graph(g, g_colors, q_cls, q_arg, adjust_graph):
         g = QueueNetworkDiGraph(g)
         if len(pos) > 0:
             g.set_pos(pos)
+    else:
+        g = QueueNetworkDiGraph(g)  # The given graph is left as it is.
 
     for e in g.edges():
         if g.ep(e, 'edge_type') is None:
-- 
2.43.0


From 994fb4f3649d6e9f95984c4e9a8d67380593cbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 32/47] fix: the next queue is never one whose routing
 probability is zero

---
 queueing_tool/queues/choice.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/queueing_tool/queues/choice.pyx b/queueing_tool/queues/choice.pyx
index 8a9b98a..7c08729 100644
--- a/queueing_tool/queues/choice.pyx
+++ b/queueing_tool/queues/choice.pyx
@@ -10,16 +10,22 @@ def _choice(double [::1] pr, double u, Py_ssize_t n):
     cdef double z
     cdef int k
 
-    if u <= pr[0]:
+    if u < pr[0]:
         k = 0
     else:
         z = pr[0]
         with nogil:
             for k in range(1, n):
-                if u <= z + pr[k]:
+                if u < z + pr[k]:
                     break
                 else:
                     z += pr[k]
+            else:
+                # The probabilities can sum to slightly less than u, in
+                # which case the last possible choice is taken.
+                k = n - 1
+                while k > 0 and pr[k] <= 0:
+                    k = k - 1
 
     return k
 
-- 
2.43.0


From c9ebebc2ef98be5e584d9cc9d52ffcf442f6f180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 33/47] fix: adjacency2graph leaves its adjacency argument as
 it was

---
 queueing_tool/graph/graph_wrapper.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index fca948d..6c0e91a 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -173,6 +173,11 @@ def adjacency2graph(adjacency, edge_type=None, adjust=1, **kwargs):
         elif isinstance(edge_type, dict):
             edge_type = _dict2dict(edge_type)
 
+    # The types are set on a copy so that the argument stays as it was.
+    adjacency = {
+        u: {v: dict(data) for v, data in adj.items()}
+        for u, adj in adjacency.items()
+    }
     for u, ty in edge_type.items():
         for v, et in ty.items():
             adjacency[u][v]['edge_type'] = et
-- 
2.43.0


From a0cb0cd2f8d09c6c45617b43f9cd2b40a4565aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 34/47] fix: pass facecolor, edgecolor and orientation on to
 savefig

---
 queueing_tool/graph/graph_wrapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index 6c0e91a..a077be6 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -191,9 +191,9 @@ def adjacency2graph(adjacency, edge_type=None, adjust=1, **kwargs):
 
 SAVEFIG_KWARGS = set([
     'dpi',
-    'facecolorw',
-    'edgecolorw',
-    'orientationportrait',
+    'facecolor',
+    'edgecolor',
+    'orientation',
     'papertype',
     'format',
     'transparent',
-- 
2.43.0


From dfe2df0326bb443d0f2c9514ed98c89d02c34fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 35/47] fix: edges can be given as any iterable of 2-tuples

---
 queueing_tool/network/queue_network.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index cb09858..26e529f 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1626,16 +1626,14 @@ def _get_queues(g, queues, edge, edge_type):
 
     elif queues is None:
         if edge is not None:
-            if isinstance(edge, tuple):
-                if isinstance(edge[0], INT) and isinstance(edge[1], INT):
-                    queues = [g.edge_index[edge]]
-                else:
-                    queues = [g.edge_index[e] for e in edge]
-            elif isinstance(edge[0], collections.abc.Iterable):
-                if np.array([len(e) == 2 for e in edge]).all():
-                    queues = [g.edge_index[e] for e in edge]
-            else:
+            is_edge = (
+                isinstance(edge, tuple) and len(edge) == 2
+                and isinstance(edge[0], INT) and isinstance(edge[1], INT)
+            )
+            if is_edge:
                 queues = [g.edge_index[edge]]
+            else:
+                queues = [g.edge_index[tuple(e)] for e in edge]
         elif edge_type is not None:
             if isinstance(edge_type, collections.abc.Iterable):
                 edge_type = set(edge_type)
-- 
2.43.0


From 4f5cb7c3f92f1f2a38dc623b3a18a1a7440497c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:14 +0000
Subject: [PATCH 36/47] fix: any property name can be set on edges and vertices

---
 queueing_tool/graph/graph_wrapper.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index a077be6..c860775 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -281,15 +281,15 @@ class QueueNetworkDiGraph(nx.DiGraph):
 
     def set_ep(self, e, edge_property, value):
         self.adj[e[0]][e[1]][edge_property] = value
-        if hasattr(self, edge_property):
-            attr = getattr(self, edge_property)
-            attr[self.edge_index[e]] = value
+        if edge_property == 'edge_color' and self.edge_color is not None:
+            self.edge_color[self.edge_index[e]] = value
 
     def set_vp(self, v, vertex_property, value):
         self.nodes[v][vertex_property] = value
-        if hasattr(self, vertex_property):
+        if vertex_property in ('pos', 'vertex_color', 'vertex_fill_color'):
             attr = getattr(self, vertex_property)
-            attr[v] = value
+            if attr is not None:
+                attr[v] = value
 
     def vertex_properties(self):
         props = set()
-- 
2.43.0


From c341760663ee78ea62061c99e39dcba5d144260b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 37/47] fix: positions given as an array are stored with the
 vertices

---
 queueing_tool/graph/graph_wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/queueing_tool/graph/graph_wrapper.py b/queueing_tool/graph/graph_wrapper.py
index c860775..6639ed6 100644
--- a/queueing_tool/graph/graph_wrapper.py
+++ b/queueing_tool/graph/graph_wrapper.py
@@ -320,6 +320,9 @@ class QueueNetworkDiGraph(nx.DiGraph):
     def set_pos(self, pos=None):
         if pos is None:
             pos = nx.spring_layout(self)
+        elif not isinstance(pos, dict):
+            # One row for each vertex, in order.
+            pos = dict(zip(sorted(self.nodes()), pos))
         nx.set_node_attributes(self, name='pos', values=pos)
         self.pos = np.array([pos[v] for v in sorted(self.nodes())])
 
-- 
2.43.0


From e045bd046b37774229e5125c9b0fbdc5cad136c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:50 +0000
Subject: [PATCH 38/47] fix: delay_service moved the placeholder instead of an
 agent that never departs

---
 queueing_tool/queues/queue_servers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 85824c3..226e517 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -1,7 +1,7 @@
 import collections
 import copy
 import numbers
-from heapq import heappush, heappop
+from heapq import heappush, heappop, heapreplace
 
 from numpy.random import uniform, exponential
 from numpy import infty
@@ -485,6 +485,9 @@ class QueueServer(object):
         """
         if len(self._departures) > 1:
             agent = heappop(self._departures)
+            if isinstance(agent, InftyAgent):
+                # None of the agents in service has a departure time.
+                agent = heapreplace(self._departures, agent)
 
             if t is None:
                 agent._time = self.service_f(agent._time)
-- 
2.43.0


From cabb549038290f7e56632c313373715b6e1c4b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:50 +0000
Subject: [PATCH 39/47] fix: a network that ran dry could not be simulated for
 an amount of time again

---
 queueing_tool/network/queue_network.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 26e529f..3e2133d 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1289,7 +1289,7 @@ class QueueNetwork(object):
                 self._simulate_next_event(slow=False)
         else:
             now = self._t
-            while self._t < now + t:
+            while self._t < now + t and self._fancy_heap.size > 0:
                 self._simulate_next_event(slow=False)
 
     def _update_heap(self):
@@ -1313,7 +1313,6 @@ class QueueNetwork(object):
             self._update_heap()
 
         if q1k is None:
-            self._t = np.infty
             return
 
         q1t = q1k[0]
-- 
2.43.0


From 4cf1c8896543d4420ac683f9c452fa07a13f5eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:50 +0000
Subject: [PATCH 40/47] fix: queues activated during a simulation had arrivals
 in the past

---
 queueing_tool/network/queue_network.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 3e2133d..240e3ba 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -967,7 +967,13 @@ class QueueNetwork(object):
             queues = queues[:self.max_agents]
 
         for ei in queues:
-            self.edge2queue[ei].set_active()
+            # Arrivals start now, which may be later than the last event
+            # of the queue.
+            q = self.edge2queue[ei]
+            if not q._active:
+                q._current_t = max(q._current_t, self._t)
+
+            q.set_active()
             self.num_agents[ei] = self.edge2queue[ei]._num_total
 
         keys = [q._key() for q in self.edge2queue if q._time < np.infty]
-- 
2.43.0


From 146d08d1b7f539fbb6c4f22f47a53c3c03f5c2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:26 +0000
Subject: [PATCH 41/47] fix: an event at the same time as the last one of its
 queue could be missed

---
 queueing_tool/network/queue_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 240e3ba..f769b34 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1302,9 +1302,10 @@ class QueueNetwork(object):
         # The next event of a queue changes when, for example, its number
         # of servers is changed between two calls to simulate.
         times = self._fancy_heap.q_map()
+        entries = set(zip(self._fancy_heap.times, self._fancy_heap.edges))
         for q in self.edge2queue:
             key = q._key()
-            if key[0] < np.infty and key[0] != times[key[1]]:
+            if key[0] < np.infty and (key[0] != times[key[1]] or key not in entries):
                 self._fancy_heap.push(*key)
 
     def _simulate_next_event(self, slow=True):
-- 
2.43.0


From a9aa5a102a12b106ac41df68b4aa6dc9fc9f307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:41 +0000
Subject: [PATCH 42/47] fix: initializing a network again could exceed
 max_agents

---
 queueing_tool/network/queue_network.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index f769b34..4563908 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -963,18 +963,19 @@ class QueueNetwork(object):
         if len(queues) == 0:
             raise QueueingToolError("There were no queues to initialize.")
 
-        if len(queues) > self.max_agents:
-            queues = queues[:self.max_agents]
+        # Each queue that becomes active has an agent scheduled to arrive.
+        room = self.max_agents - np.sum(self.num_agents)
 
         for ei in queues:
-            # Arrivals start now, which may be later than the last event
-            # of the queue.
             q = self.edge2queue[ei]
-            if not q._active:
+            if not q._active and room > 0:
+                # Arrivals start now, which may be later than the last
+                # event of the queue.
                 q._current_t = max(q._current_t, self._t)
+                q.set_active()
+                room -= 1
 
-            q.set_active()
-            self.num_agents[ei] = self.edge2queue[ei]._num_total
+            self.num_agents[ei] = q._num_total
 
         keys = [q._key() for q in self.edge2queue if q._time < np.infty]
         self._fancy_heap = PriorityQueue(keys, self.nE)
-- 
2.43.0


From 01c2b29405f66cc1919907422f870d338dd2983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:41 +0000
Subject: [PATCH 43/47] fix: a rejected transition dict changed the rows before
 the invalid one

---
 queueing_tool/network/queue_network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index 4563908..fd232bd 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1112,6 +1112,7 @@ class QueueNetwork(object):
                     msg = "Some transition probabilities were negative."
                     raise ValueError(msg)
 
+            for key, value in mat.items():
                 for k, e in enumerate(sorted(self.g.out_edges(key))):
                     self._route_probs[key][k] = value.get(e[1], 0)
 
-- 
2.43.0


From b9c7f8cbc43720272f485790aca7615f1da75c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:41 +0000
Subject: [PATCH 44/47] fix: info agents did not count when they were blocked
 on arrival

---
 queueing_tool/queues/queue_extentions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index 7e34d08..ad3617a 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -231,6 +231,7 @@ class InfoAgent(Agent):
         return "InfoAgent; agent_id:{0}. Time: {1}".format(self.agent_id, round(self._time, 3))
 
     def add_loss(self, qedge, *args, **kwargs):  # qedge[2] is the edge_index of the queue
+        super(InfoAgent, self).add_loss(qedge, *args, **kwargs)
         self.stats[qedge[2], 2] += 1
 
     def get_beliefs(self):
-- 
2.43.0


From 12f573dc9ebb348a58d2f97686d0f758c1ad229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:14 +0000
Subject: [PATCH 45/47] fix: set_types_rank with pType2=0 made every vertex a
 top vertex

---
 queueing_tool/graph/graph_generation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/queueing_tool/graph/graph_generation.py b/queueing_tool/graph/graph_generation.py
index faca220..d9d9f76 100644
--- a/queueing_tool/graph/graph_generation.py
+++ b/queueing_tool/graph/graph_generation.py
@@ -377,19 +377,20 @@ def set_types_rank(g, rank, pType2=0.1, pType3=0.1, seed=None, **kwargs):
 
     tmp = np.sort(np.array(rank))
     nDests = int(np.ceil(g.number_of_nodes() * pType2))
-    dests = np.where(rank >= tmp[-nDests])[0]
+    dests = np.where(rank >= tmp[-nDests])[0] if nDests > 0 else np.zeros(0, int)
 
     if 'pos' not in g.vertex_properties():
         g.set_pos()
 
     dest_pos = np.array([g.vp(v, 'pos') for v in dests])
-    nFCQ = int(pType3 * g.number_of_nodes())
+    # Type 3 vertices are near type 2 vertices.
+    nFCQ = int(pType3 * g.number_of_nodes()) if nDests > 0 else 0
     min_g_dist = np.ones(nFCQ) * np.infty
     ind_g_dist = np.ones(nFCQ, int)
 
     r, theta = np.random.random(nFCQ) / 500., np.random.random(nFCQ) * 360.
     xy_pos = np.array([r * np.cos(theta), r * np.sin(theta)]).transpose()
-    g_pos = xy_pos + dest_pos[np.array(np.mod(np.arange(nFCQ), nDests), int)]
+    g_pos = xy_pos + dest_pos[np.array(np.mod(np.arange(nFCQ), nDests), int)] if nFCQ > 0 else xy_pos
 
     for v in g.nodes():
         if v not in dests:
-- 
2.43.0


From ac9619571cd1c14508fd90e5238e0183b0bd1281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:32 +0000
Subject: [PATCH 46/47] fix: blocked agents at large times tried again at, not
 after, the departure they wait for

---
 queueing_tool/network/queue_network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queueing_tool/network/queue_network.py b/queueing_tool/network/queue_network.py
index fd232bd..e064c52 100644
--- a/queueing_tool/network/queue_network.py
+++ b/queueing_tool/network/queue_network.py
@@ -1343,6 +1343,8 @@ class QueueNetwork(object):
                 q1._departures[0].blocked += 1
                 if self._blocking:
                     t = q2._departures[0]._time + EPS * uniform(0.33, 0.66)
+                    # EPS is lost in the rounding when the time is large
+                    t = max(t, np.nextafter(q2._departures[0]._time, np.infty))
                     q1.delay_service(t)
                 else:
                     q1.delay_service()
-- 
2.43.0


From bd5404169c6711acac1dedcbbe1cf37f3c795079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:30 +0000
Subject: [PATCH 47/47] fix: set_active after the stop time left the queue
 active although no agent would ever arrive

---
 queueing_tool/queues/queue_extentions.py | 3 +++
 queueing_tool/queues/queue_servers.py    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/queueing_tool/queues/queue_extentions.py b/queueing_tool/queues/queue_extentions.py
index ad3617a..1f97c10 100644
--- a/queueing_tool/queues/queue_extentions.py
+++ b/queueing_tool/queues/queue_extentions.py
@@ -319,6 +319,9 @@ class InfoQueue(LossQueue):
 
                 if self._oArrivals >= self.active_cap:
                     self._active = False
+            elif self._next_ct >= self.deactive_t:
+                # The stop time was reached before.
+                self._active = False
 
         if self._arrivals[0]._time < self._departures[0]._time:
             self._time = self._arrivals[0]._time
diff --git a/queueing_tool/queues/queue_servers.py b/queueing_tool/queues/queue_servers.py
index 226e517..9225477 100644
--- a/queueing_tool/queues/queue_servers.py
+++ b/queueing_tool/queues/queue_servers.py
@@ -382,6 +382,9 @@ class QueueServer(object):
 
                 if self._oArrivals >= self.active_cap:
                     self._active = False
+            elif self._next_ct >= self.deactive_t:
+                # The stop time was reached before.
+                self._active = False
 
         if self._arrivals[0]._time < self._departures[0]._time:
             self._time = self._arrivals[0]._time
-- 
2.43.0

