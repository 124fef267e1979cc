From b993b8bdfb39ce9bb3b98db9283902ff62aa318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 01/17] fix: sample neighbour tuples from a list, since
 sampling from a set is an error in Python 3.11+

---
 nodefinder/identify/_dimension.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nodefinder/identify/_dimension.py b/nodefinder/identify/_dimension.py
index e87d207..7ce0f45 100644
--- a/nodefinder/identify/_dimension.py
+++ b/nodefinder/identify/_dimension.py
@@ -155,7 +155,8 @@ def _has_dimension(
         num_draws = 10
         while neighbour_tuples:
             vals = random.sample(
-                neighbour_tuples, min(num_draws, len(neighbour_tuples))
+                list(neighbour_tuples),
+                min(num_draws, len(neighbour_tuples))
             )
             yield from vals
             neighbour_tuples -= set(vals)
-- 
2.43.0


From 92dd8f7e5d7f5a6efc66dc2e32ab0be5bf1ca553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 02/17] fix: map the average of positions into the limits of a
 periodic box

---
 nodefinder/coordinate_system.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nodefinder/coordinate_system.py b/nodefinder/coordinate_system.py
index 3291463..c6e4a69 100644
--- a/nodefinder/coordinate_system.py
+++ b/nodefinder/coordinate_system.py
@@ -100,7 +100,9 @@ class CoordinateSystem(SimpleHDF5Mapping):
         else:
             origin = positions[0]
             deltas = [self.connecting_vector(origin, pos) for pos in positions]
-            return (origin + np.average(deltas, axis=0)) % self.size
+            return self.normalize_position(
+                origin + np.average(deltas, axis=0)
+            )
 
     def normalize_position(self, pos):
         """
-- 
2.43.0


From 747c985d6505a686d0d705d534b54bb9866e7b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 03/17] fix: load identification results with current h5py,
 where reading a group raises TypeError

---
 nodefinder/identify/result/_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/identify/result/_containers.py b/nodefinder/identify/result/_containers.py
index 22b5062..9961b16 100644
--- a/nodefinder/identify/result/_containers.py
+++ b/nodefinder/identify/result/_containers.py
@@ -83,7 +83,7 @@ class IdentificationResult(SimpleNamespace, HDF5Enabled):
         shape = from_hdf5(hdf5_handle['shape'])
         try:
             dimension = hdf5_handle['dimension'][()]
-        except AttributeError:
+        except (AttributeError, TypeError):
             dimension = from_hdf5(hdf5_handle['dimension'])
         try:
             positions = [tuple(x) for x in hdf5_handle['positions'][()]]
-- 
2.43.0


From 30e3cad7b68d15b899f71789780efc2660f89931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 04/17] fix: use the default feature size when identifying a
 controller state

---
 nodefinder/identify/_run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nodefinder/identify/_run.py b/nodefinder/identify/_run.py
index 233b13a..1ab7379 100644
--- a/nodefinder/identify/_run.py
+++ b/nodefinder/identify/_run.py
@@ -30,10 +30,10 @@ def run(result, feature_size=None, evaluate_line_method='ballistic'):
         Distance between two nodal points at which they are considered distinct.
         Uses the ``feature_size`` used in the search step by default.
     """
-    if feature_size is None:
-        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR
     if isinstance(result, ControllerState):
         result = result.result
+    if feature_size is None:
+        feature_size = result.dist_cutoff * _DIST_CUTOFF_FACTOR
     positions = [node.pos for node in result.nodes]
     coordinate_system = result.coordinate_system
     return run_from_positions(
-- 
2.43.0


From 743bcabc80e00a1548bada0f25fe42628d080b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 05/17] fix: report neighbours only once in periodic boxes with
 less than three cells

---
 nodefinder/search/result/_cell_list.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_cell_list.py b/nodefinder/search/result/_cell_list.py
index 1d6c232..7412c3c 100644
--- a/nodefinder/search/result/_cell_list.py
+++ b/nodefinder/search/result/_cell_list.py
@@ -50,7 +50,11 @@ class CellList:
         indices = idx + self._neighbour_offset
 
         if self.periodic:
-            return [tuple(i % self._total_num_cells) for i in indices]
+            # wrapping can lead to the same cell more than once
+            return list(
+                dict.fromkeys(tuple(i % self._total_num_cells)
+                              for i in indices)
+            )
         return [
             tuple(i) for i in indices
             if np.all(i >= 0) and np.all(i < self._total_num_cells)
-- 
2.43.0


From 20b491169678488acb4aae2ebcc766a53a4499fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:31 +0000
Subject: [PATCH 06/17] fix: mark the search result as needing to be saved when
 a result is added

---
 nodefinder/search/result/_search_result_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/result/_search_result_container.py b/nodefinder/search/result/_search_result_container.py
index 75ee09d..ec5667f 100644
--- a/nodefinder/search/result/_search_result_container.py
+++ b/nodefinder/search/result/_search_result_container.py
@@ -96,6 +96,7 @@ class SearchResultContainer(SimpleHDF5Mapping):
         res : MinimizationResult
             Minimization result to add.
         """
+        self.needs_saving = True
         res.pos = self.coordinate_system.normalize_position(res.pos)
         if not res.success or res.value > self.gap_threshold:  # pylint: disable=no-else-return
             self.rejected_results.append(res)
@@ -103,7 +104,6 @@ class SearchResultContainer(SimpleHDF5Mapping):
         else:
             self.nodes.add_point(self.coordinate_system.get_frac(res.pos), res)
             return True
-        self.needs_saving = True
 
     def set_refined(self, pos):
         """
-- 
2.43.0


From a0533044fb076f8f14e64629031de188aca6df58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 07/17] fix: load the message of minimization results as str,
 not bytes

---
 nodefinder/search/result/_minimization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/result/_minimization.py b/nodefinder/search/result/_minimization.py
index cd1ec82..7615467 100644
--- a/nodefinder/search/result/_minimization.py
+++ b/nodefinder/search/result/_minimization.py
@@ -103,9 +103,13 @@ class MinimizationResult(SimpleNamespace, HDF5Enabled):
 
     @classmethod
     def from_hdf5(cls, hdf5_handle):
+        values = {
+            key: val[()]
+            for key, val in hdf5_handle.items() if key != 'type_tag'
+        }
         return cls(
             **{
-                key: val[()]
-                for key, val in hdf5_handle.items() if key != 'type_tag'
+                key: val.decode() if isinstance(val, bytes) else val
+                for key, val in values.items()
             }
         )
-- 
2.43.0


From b5983a5bc1a1b44a6b0ec156eac1d31908488909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 08/17] fix: queue objects which are given repeatedly only once

---
 nodefinder/search/_queue.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/_queue.py b/nodefinder/search/_queue.py
index 549816c..8f58e76 100644
--- a/nodefinder/search/_queue.py
+++ b/nodefinder/search/_queue.py
@@ -23,7 +23,8 @@ class ObjectQueue(HDF5Enabled, ABC):
     HDF5_ATTRIBUTES = ['objects']
 
     def __init__(self, objects=frozenset()):
-        all_objects = self.normalize(objects)
+        # queue repeated objects only once
+        all_objects = list(dict.fromkeys(self.normalize(objects)))
         self._queued_objects = Queue()
         self._extend_queue(all_objects)
 
@@ -45,7 +46,7 @@ class ObjectQueue(HDF5Enabled, ABC):
         """
         Add new objects to the queue.
         """
-        new_objects = self.normalize(objects)
+        new_objects = list(dict.fromkeys(self.normalize(objects)))
         new_objects_filtered = [
             obj for obj in new_objects if obj not in self._all_objects
         ]
-- 
2.43.0


From 0048082f1ca78f122d46b49721cdf5f0575b1fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 09/17] fix: use the graph with edge weights in the dominating
 set method

---
 nodefinder/identify/_evaluate/_line/_dominating_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/identify/_evaluate/_line/_dominating_set.py b/nodefinder/identify/_evaluate/_line/_dominating_set.py
index 6da810d..6016c19 100644
--- a/nodefinder/identify/_evaluate/_line/_dominating_set.py
+++ b/nodefinder/identify/_evaluate/_line/_dominating_set.py
@@ -36,7 +36,7 @@ def _evaluate_line_dominating_set(*, graph, coordinate_system, feature_size):
             graph_reduced_neighbours.add_edge(*edge)
 
     dominating_set = nx.algorithms.dominating_set(graph_reduced_neighbours)
-    subgraph = graph.subgraph(dominating_set).copy()
+    subgraph = graph_copy.subgraph(dominating_set).copy()
 
     _patch_all_subgraph_holes(
         subgraph=subgraph,
-- 
2.43.0


From 1eadc8add1d7bbece7f6c12dc69e1ec75409e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 10/17] fix: patch holes between disconnected parts in the
 dominating set method

---
 .../_evaluate/_line/_dominating_set.py        | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/nodefinder/identify/_evaluate/_line/_dominating_set.py b/nodefinder/identify/_evaluate/_line/_dominating_set.py
index 6016c19..9c6640b 100644
--- a/nodefinder/identify/_evaluate/_line/_dominating_set.py
+++ b/nodefinder/identify/_evaluate/_line/_dominating_set.py
@@ -76,7 +76,7 @@ def _patch_all_subgraph_holes(
             np.array(pos1), np.array(pos2)
         )
         if dist_minimal < 2 * feature_size:
-            dist_reduced = nx.algorithms.shortest_path_length(
+            dist_reduced = _get_path_length(
                 subgraph, pos1, pos2, weight=weight
             )
             if dist_reduced > max(feature_size, patch_cutoff * dist_minimal):
@@ -93,9 +93,7 @@ def _patch_all_subgraph_holes(
     to_patch = sorted(to_patch, key=operator.attrgetter('dist_original'))
     for edge, dist_original in to_patch:
         # might have changed since the subgraph is being patched
-        dist_reduced = nx.algorithms.shortest_path_length(
-            subgraph, *edge, weight=_DISTANCE_KEY
-        )
+        dist_reduced = _get_path_length(subgraph, *edge, weight=_DISTANCE_KEY)
         if dist_reduced > 2 * dist_original:
             IDENTIFY_LOGGER.debug(
                 'Patching hole {} in sub-graph.'.format(edge)
@@ -106,6 +104,19 @@ def _patch_all_subgraph_holes(
             )
 
 
+def _get_path_length(graph, start, end, weight):
+    """
+    Get the length of the shortest path, which is infinite if the points are
+    not connected.
+    """
+    try:
+        return nx.algorithms.shortest_path_length(
+            graph, start, end, weight=weight
+        )
+    except nx.NetworkXNoPath:
+        return float('inf')
+
+
 def _patch_subgraph_hole(*, subgraph, graph, start, end):
     """
     Patch a single hole in the subgraph between the given start and end points.
-- 
2.43.0


From 27e04d618c3397323c5f7fb8b38cff4d80bc71dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 11/17] fix: evaluate all positions if no minimum number of
 evaluations is given

---
 nodefinder/identify/_dimension.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nodefinder/identify/_dimension.py b/nodefinder/identify/_dimension.py
index 7ce0f45..0fbd55a 100644
--- a/nodefinder/identify/_dimension.py
+++ b/nodefinder/identify/_dimension.py
@@ -51,7 +51,9 @@ def calculate_dimension(
     """
     positions_to_evaluate = list(graph.nodes)
 
-    if min_pos_evaluations is not None:
+    if min_pos_evaluations is None:
+        min_pos_evaluations = len(positions_to_evaluate)
+    else:
         random.shuffle(positions_to_evaluate)
 
     dim_counter = Counter()
-- 
2.43.0


From a09bde45e5f1700a1fe9fbdd73f7a21ffafd41d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 12/17] fix: mark a queue as needing to be saved when an object
 is handed out

---
 nodefinder/search/_queue.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nodefinder/search/_queue.py b/nodefinder/search/_queue.py
index 8f58e76..c6b72d7 100644
--- a/nodefinder/search/_queue.py
+++ b/nodefinder/search/_queue.py
@@ -40,7 +40,9 @@ class ObjectQueue(HDF5Enabled, ABC):
         return list(self._queued_objects.queue)
 
     def pop_queued(self):
-        return self._queued_objects.get_nowait()
+        obj = self._queued_objects.get_nowait()
+        self.needs_saving = True
+        return obj
 
     def add_objects(self, objects):
         """
-- 
2.43.0


From 4c6f6b46d4fd40543b9e77d392c7f1c5b3eb6899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 13/17] fix: keep queued positions when restarting without a
 refinement stencil

---
 nodefinder/search/_controller.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/_controller.py b/nodefinder/search/_controller.py
index f504854..c7396c4 100644
--- a/nodefinder/search/_controller.py
+++ b/nodefinder/search/_controller.py
@@ -195,14 +195,14 @@ class Controller:
         async with PeriodicTask(self.save, delay=self.save_delay):
             while (
                 not self.state.simplex_queue.finished
-            ) or self.state.position_queue.has_queued:
+            ) or self._has_queued_positions:
                 # if (not self.state.simplex_queue.has_queued) and (self.state.position_queue.has_queued):
                 while (
                     self.state.simplex_queue.num_running <
                     self.num_minimize_parallel
                 ):
                     while not self.state.simplex_queue.has_queued:
-                        if self.state.position_queue.has_queued:
+                        if self._has_queued_positions:
                             pos = self.state.position_queue.pop_queued()
                             if (not self.recheck_pos_dist
                                 ) or self._check_pos_refinement(
@@ -242,6 +242,17 @@ class Controller:
                 self.task_futures.difference_update(done_futures)
         await asyncio.gather(*self.task_futures)
 
+    @property
+    def _has_queued_positions(self):
+        """
+        Shows if there are positions which should be refined. Without a
+        refinement stencil, positions from a previous run remain queued.
+        """
+        return (
+            self.refinement_stencil is not None
+            and self.state.position_queue.has_queued
+        )
+
     def schedule_minimization(self, simplex):
         SEARCH_LOGGER.debug(
             'Scheduling minimization of simplex {}'.format(simplex)
-- 
2.43.0


From ef492546f79cb3efba2ce5d1a887d3c38eb712f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 14/17] fix: pass on all exceptions from the search thread,
 instead of waiting for a result forever

---
 nodefinder/search/_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/_run.py b/nodefinder/search/_run.py
index 32d7c54..44ea095 100644
--- a/nodefinder/search/_run.py
+++ b/nodefinder/search/_run.py
@@ -192,6 +192,6 @@ def _run_in_thread(*args, res_queue, exc_queue, **kwargs):
         res = loop.run_until_complete(run_async(*args, **kwargs))
         loop.close()
         res_queue.put(res)
-    except Exception as exc:
+    except BaseException as exc:
         exc_queue.put(exc)
         raise
-- 
2.43.0


From 66ab05404ca6588c29395204e2e48f17b31d8af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:02 +0000
Subject: [PATCH 15/17] fix: load positions of identification results stored in
 a group with current h5py

---
 nodefinder/identify/result/_containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/identify/result/_containers.py b/nodefinder/identify/result/_containers.py
index 9961b16..9cbf4a9 100644
--- a/nodefinder/identify/result/_containers.py
+++ b/nodefinder/identify/result/_containers.py
@@ -87,6 +87,6 @@ class IdentificationResult(SimpleNamespace, HDF5Enabled):
             dimension = from_hdf5(hdf5_handle['dimension'])
         try:
             positions = [tuple(x) for x in hdf5_handle['positions'][()]]
-        except AttributeError:
+        except (AttributeError, TypeError):
             positions = from_hdf5(hdf5_handle['positions'])
         return cls(positions=positions, dimension=dimension, shape=shape)
-- 
2.43.0


From 178bcbbd00b241b7afaa87a08a0017bc89756ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:24 +0000
Subject: [PATCH 16/17] fix: a gap function which modifies its argument changed
 the simplex being minimized

---
 nodefinder/search/_minimization/_nelder_mead.py | 3 ++-
 nodefinder/search/_minimization/_run.py         | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index bafc0cb..5f77ed1 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -46,7 +46,8 @@ def wrap_function(function):
 
     async def function_wrapper(*args):
         ncalls[0] += 1
-        return await function(*args)
+        # the function may modify its argument
+        return await function(*[np.copy(arg) for arg in args])
 
     return ncalls, function_wrapper
 
diff --git a/nodefinder/search/_minimization/_run.py b/nodefinder/search/_minimization/_run.py
index b4884f0..cb7ffe8 100644
--- a/nodefinder/search/_minimization/_run.py
+++ b/nodefinder/search/_minimization/_run.py
@@ -8,6 +8,7 @@ Defines the function running the minimization, including the fake potential.
 
 from types import MappingProxyType
 
+import numpy as np
 from fsc.export import export
 
 from ..result._minimization import JoinedMinimizationResult
@@ -16,7 +17,8 @@ from ._nelder_mead import root_nelder_mead
 
 def add_fake_potential(fake_pot, func):
     async def evaluate(x):
-        return (await func(x)) + fake_pot(x)
+        # the function may modify its argument
+        return (await func(np.copy(x))) + fake_pot(x)
 
     return evaluate
 
-- 
2.43.0


From 0b82b06aab85a2f68a237a9c93fa51b6613dfea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:38 +0000
Subject: [PATCH 17/17] fix: a starting simplex of integers was truncated to
 integers during the minimization

---
 nodefinder/search/_minimization/_nelder_mead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodefinder/search/_minimization/_nelder_mead.py b/nodefinder/search/_minimization/_nelder_mead.py
index 5f77ed1..5d91060 100644
--- a/nodefinder/search/_minimization/_nelder_mead.py
+++ b/nodefinder/search/_minimization/_nelder_mead.py
@@ -111,7 +111,7 @@ async def root_nelder_mead(
     sigma = 0.5
     one2np1 = list(range(1, N + 1))
 
-    sim = np.array(initial_simplex)
+    sim = np.array(initial_simplex, dtype=float)
     assert sim.shape == (N + 1, N)
 
     fsim = np.array(await asyncio.gather(*[func(x) for x in sim]), dtype=float)
-- 
2.43.0

