From 63158c0992012849c6e2f8e05d2778a88fdc9124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 01/74] fix: resource optimizers crash on or ignore partially
 specified worker teams

---
 sampo/scheduler/resource/average_req.py        | 2 +-
 sampo/scheduler/resource/coordinate_descent.py | 8 +++++++-
 sampo/scheduler/resource/full_scan.py          | 7 ++++++-
 sampo/utilities/base_opt.py                    | 2 +-
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/resource/average_req.py b/sampo/scheduler/resource/average_req.py
index bd71886..2cb1c94 100644
--- a/sampo/scheduler/resource/average_req.py
+++ b/sampo/scheduler/resource/average_req.py
@@ -37,7 +37,7 @@ class AverageReqResourceOptimizer(ResourceOptimizer):
         :param get_finish_time: optimization function that should give execution time based on worker team
         """
 
-        if optimize_array:
+        if optimize_array is not None:
             for worker, up, down, optimize in zip(worker_team, up_border, down_border, optimize_array):
                 if optimize:
                     worker.count = max(0, down) + int((up - down) / self.k)
diff --git a/sampo/scheduler/resource/coordinate_descent.py b/sampo/scheduler/resource/coordinate_descent.py
index c884c94..a5e8b91 100644
--- a/sampo/scheduler/resource/coordinate_descent.py
+++ b/sampo/scheduler/resource/coordinate_descent.py
@@ -35,6 +35,12 @@ class CoordinateDescentResourceOptimizer(ResourceOptimizer):
         :param get_finish_time: optimization function that should give execution time based on the worker team
         """
 
+        if optimize_array is not None:
+            # positions that shouldn't be optimized keep their current count
+            given_count = np.array([worker.count for worker in worker_team])
+            down_border = np.where(optimize_array, down_border, given_count)
+            up_border = np.where(optimize_array, up_border, given_count)
+
         def fitness(worker_count: np.ndarray):
             """
             Function that counts finish time with a current set of resources.
@@ -50,7 +56,7 @@ class CoordinateDescentResourceOptimizer(ResourceOptimizer):
                                                self.one_dimension_optimizer,
                                                fitness,
                                                optimize_array)
-        if optimize_array:
+        if optimize_array is not None:
             for i, worker in enumerate(worker_team):
                 if optimize_array[i]:
                     worker.count = count_worker_team[i]
diff --git a/sampo/scheduler/resource/full_scan.py b/sampo/scheduler/resource/full_scan.py
index 291ea24..82245c8 100644
--- a/sampo/scheduler/resource/full_scan.py
+++ b/sampo/scheduler/resource/full_scan.py
@@ -35,7 +35,12 @@ class FullScanResourceOptimizer(ResourceOptimizer):
         :param get_finish_time: optimization function that should give execution time based on worker team
         """
 
-        # TODO Handle optimize_array
+        if optimize_array is not None:
+            # positions that shouldn't be optimized keep their current count
+            given_count = np.array([worker.count for worker in worker_team])
+            down_border = np.where(optimize_array, down_border, given_count)
+            up_border = np.where(optimize_array, up_border, given_count)
+
         def fitness(worker_count: np.ndarray):
             """
             Function that counts finish time with a current set of resources
diff --git a/sampo/utilities/base_opt.py b/sampo/utilities/base_opt.py
index 484353f..aec86f9 100644
--- a/sampo/utilities/base_opt.py
+++ b/sampo/utilities/base_opt.py
@@ -46,7 +46,7 @@ def coordinate_descent(down: np.ndarray, up: np.ndarray,
                        optimize_array: Optional[np.ndarray]) -> np.ndarray:
     cur = down.copy()
     for i in range(down.size):
-        if optimize_array and not optimize_array[i]:
+        if optimize_array is not None and not optimize_array[i]:
             continue
 
         def part(x) -> Time:
-- 
2.43.0


From 6a59bb13392ec1a3b6f5a979d91b516869c511be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 02/74] fix: contractors that can't provide the specified
 worker team should not be considered

---
 sampo/scheduler/generic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampo/scheduler/generic.py b/sampo/scheduler/generic.py
index 211ca5b..f2b62f3 100644
--- a/sampo/scheduler/generic.py
+++ b/sampo/scheduler/generic.py
@@ -85,6 +85,10 @@ class GenericScheduler(Scheduler):
                 if len(workers) != len(node.work_unit.worker_reqs):
                     return assigned_parent_time, Time.inf(), []
 
+                # contractor can't provide the worker team given in the spec
+                if any(spec.assigned_workers.get(worker.name, 0) > worker.count for worker in workers):
+                    return assigned_parent_time, Time.inf(), []
+
                 workers = [worker.copy() for worker in workers]
 
                 # apply worker team spec
-- 
2.43.0


From 12679f721ad572d33b61c8f018e4514e882e314c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 03/74] fix: MomentumTimeline should search a slot for the
 assigned execution time

---
 sampo/scheduler/timeline/momentum_timeline.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index ae64168..d13f446 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -1,4 +1,5 @@
 from collections import deque
+from dataclasses import replace
 from typing import Optional, Union
 
 from sortedcontainers import SortedList
@@ -112,9 +113,14 @@ class MomentumTimeline(Timeline):
 
         exec_time: Time = Time(0)
         exec_times: dict[GraphNode, tuple[Time, Time]] = {}  # node: (lag, exec_time)
+        assigned_exec_times = {} if spec.assigned_time is None else \
+            get_exec_times_from_assigned_time_for_chain(inseparable_chain, spec.assigned_time)
         for chain_node in inseparable_chain:
-            node_exec_time: Time = Time(0) if len(chain_node.work_unit.worker_reqs) == 0 else \
-                work_estimator.estimate_time(chain_node.work_unit, worker_team)
+            if chain_node in assigned_exec_times:
+                _, node_exec_time = assigned_exec_times[chain_node]
+            else:
+                node_exec_time: Time = Time(0) if len(chain_node.work_unit.worker_reqs) == 0 else \
+                    work_estimator.estimate_time(chain_node.work_unit, worker_team)
 
             lag_req = nodes_max_parent_times[chain_node] - max_parent_time - exec_time
             lag = lag_req if lag_req > 0 else 0
@@ -399,11 +405,12 @@ class MomentumTimeline(Timeline):
                  assigned_parent_time: Time = Time(0),
                  work_estimator: WorkTimeEstimator = DefaultWorkEstimator()):
         inseparable_chain = node.get_inseparable_chain_with_self()
+        if assigned_time is not None:
+            # the slot should be searched for the assigned execution time
+            spec = replace(spec, assigned_time=assigned_time)
         start_time, _, exec_times = \
             self.find_min_start_time_with_additional(node, workers, node2swork, spec, assigned_start_time,
                                                      assigned_parent_time, work_estimator)
-        if assigned_time is not None:
-            exec_times = get_exec_times_from_assigned_time_for_chain(inseparable_chain, assigned_time)
 
         # TODO Decide how to deal with exec_times(maybe we should remove using pre-computed exec_times)
         self._schedule_with_inseparables(node, node2swork, inseparable_chain, spec,
-- 
2.43.0


From 7784020779e12aad47e63106ee5d10bc47f05816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 04/74] fix: MomentumTimeline should let no parallel users of
 resources of independent works

---
 sampo/scheduler/timeline/momentum_timeline.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index d13f446..3f07e5f 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -309,9 +309,7 @@ class MomentumTimeline(Timeline):
         if spec.is_independent:
             # squash all the timeline to the last point
             for worker in worker_team:
-                worker_timeline = self._timeline[(worker.contractor_id, worker.name)]
-                last_cpkt_time, _ = worker_timeline[0]
-                if last_cpkt_time >= start_time:
+                if self._timeline[worker.contractor_id][worker.name][-1].time > start_time:
                     return False
             return True
         else:
@@ -373,14 +371,16 @@ class MomentumTimeline(Timeline):
             start_idx = state.bisect_right(start)
             end_idx = state.bisect_left((end, -1, EventType.INITIAL))
             available_workers_count = state[start_idx - 1].available_workers_count
+            # independent work occupies all the workers of the type, so nobody can use them in parallel
+            count = state[0].available_workers_count if spec.is_independent else w.count
             # updating all events in between the start and the end of our current task
             for event in state[start_idx: end_idx]:
-                assert event.available_workers_count >= w.count
-                event.available_workers_count -= w.count
+                assert event.available_workers_count >= count
+                event.available_workers_count -= count
 
-            assert available_workers_count >= w.count
+            assert available_workers_count >= count
 
-            state.add(ScheduleEvent(task_index, EventType.START, start, None, available_workers_count - w.count))
+            state.add(ScheduleEvent(task_index, EventType.START, start, None, available_workers_count - count))
 
             # move the index on time when resources of the work will be freed
             end_idx = state.bisect_right(end) - 1
@@ -390,7 +390,7 @@ class MomentumTimeline(Timeline):
                 end_count = state[end_idx].available_workers_count
             else:
                 # time when resources will be freed is not in timeline
-                end_count = state[end_idx].available_workers_count + w.count
+                end_count = state[end_idx].available_workers_count + count
 
             state.add(ScheduleEvent(task_index, EventType.END, end, None, end_count))
 
-- 
2.43.0


From 8c7132b32b427d731e439712cd427dd27f5ca8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 05/74] fix: contractor borders of the chromosome should be
 indexed by worker name

---
 sampo/scheduler/genetic/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/utils.py b/sampo/scheduler/genetic/utils.py
index abd6406..11904cb 100644
--- a/sampo/scheduler/genetic/utils.py
+++ b/sampo/scheduler/genetic/utils.py
@@ -50,8 +50,8 @@ def prepare_optimized_data_structures(wg: WorkGraph,
 
     contractor_borders = np.zeros((len(contractor2index), len(worker_name2index)), dtype=int)
     for ind, contractor in enumerate(contractors):
-        for ind_worker, worker in enumerate(contractor.workers.values()):
-            contractor_borders[ind, ind_worker] = worker.count
+        for worker in contractor.workers.values():
+            contractor_borders[ind, worker_name2index[worker.name]] = worker.count
 
     nodes, node_id2parent_ids, node_id2child_ids = get_head_nodes_with_connections_mappings(wg)
     node_indices = list(range(len(nodes)))
-- 
2.43.0


From 927a8c2307d47454edd41afb414b913421937b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:45 +0000
Subject: [PATCH 06/74] fix: genetic order operators should reach the last
 priority group

---
 sampo/scheduler/genetic/operators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sampo/scheduler/genetic/operators.py b/sampo/scheduler/genetic/operators.py
index 8fd3114..119a4bc 100644
--- a/sampo/scheduler/genetic/operators.py
+++ b/sampo/scheduler/genetic/operators.py
@@ -499,6 +499,9 @@ def mate_scheduling_order(ind1: Individual, ind2: Individual, rand: random.Rando
             cur_priority = priorities[order1[i]]
 
             mate_parts(order1[cur_priority_group_start:i], order2[cur_priority_group_start:i])
+            cur_priority_group_start = i
+    # the last priority group
+    mate_parts(order1[cur_priority_group_start:], order2[cur_priority_group_start:])
 
     return toolbox.Individual(child1), toolbox.Individual(child2)
 
@@ -607,6 +610,8 @@ def mutate_scheduling_order(ind: Individual, mutpb: float, rand: random.Random,
 
             cur_priority = priorities[order[i]]
             cur_priority_group_start = i
+    # the last priority group
+    mutate_scheduling_order_core(order[cur_priority_group_start:], mutpb_for_priority_group, rand, parents, children)
 
     return ind
 
-- 
2.43.0


From 4fd284be8aaf191fa39f960e9335881ca3aeb075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 07/74] fix: priority correction should treat an inseparable
 chain as a whole

---
 sampo/utilities/priority.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sampo/utilities/priority.py b/sampo/utilities/priority.py
index cd23be6..7f9c61f 100644
--- a/sampo/utilities/priority.py
+++ b/sampo/utilities/priority.py
@@ -6,12 +6,17 @@ def update_priority(node, priority_value, visited=None):
     if visited is None:
         visited = set()
 
+    if node in visited:
+        return
     visited.add(node)
 
     node.work_unit.priority = min(node.work_unit.priority, priority_value)
 
-    for parent in getattr(node, "parents", []):
-        update_priority(parent, priority_value, visited)
+    # an inseparable chain takes place of its head in the order of works,
+    # so the whole chain should wait for the parents of each its work
+    for chain_node in node.get_inseparable_chain_with_self():
+        for parent in chain_node.parents:
+            update_priority(parent, priority_value, visited)
 
 
 def check_and_correct_priorities(wg: WorkGraph, verbose: bool = True):
@@ -19,13 +24,17 @@ def check_and_correct_priorities(wg: WorkGraph, verbose: bool = True):
     for node in wg.nodes:
         # if node.is_inseparable_son():
         #     continue
+        head_node = node
+        while head_node.is_inseparable_son():
+            head_node = head_node.inseparable_parent
+        priority = min(node.work_unit.priority, head_node.work_unit.priority)
         for parent_node in node.parents:
-            if node.work_unit.priority < parent_node.work_unit.priority:
+            if priority < parent_node.work_unit.priority:
                 if verbose:
                     SAMPO.logger.warn(f'Priority of node {node.work_unit.display_name} '
                                       f'is less than node {parent_node.work_unit.name} '
                                       f'conflicting with edges, applying auto-correction')
-                update_priority(parent_node, node.work_unit.priority)
+                update_priority(parent_node, priority)
 
 
 def extract_priority_groups_from_nodes(nodes: list[GraphNode]) -> dict[int, list[GraphNode]]:
-- 
2.43.0


From e96a4e85aa10c929ff6e6086fac988c972ffe680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 08/74] fix: cost of a work united from stages should include
 all its stages

---
 sampo/schemas/schedule.py   | 1 +
 sampo/utilities/schedule.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index de53fbf..1d85196 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -127,6 +127,7 @@ class Schedule(JSONSerializable['Schedule']):
             swork.model_name['granular_name'] = row['granular_name']
             swork.display_name = row['task_name']
             swork.volume = float(row['volume'])
+            swork.cost = row['cost']
             swork.start_end_time = Time(int(row['start'])), Time(int(row['finish']))
             return row
 
diff --git a/sampo/utilities/schedule.py b/sampo/utilities/schedule.py
index 05322be..cf966c2 100644
--- a/sampo/utilities/schedule.py
+++ b/sampo/utilities/schedule.py
@@ -76,6 +76,8 @@ def merge_split_stages(task_df: pd.DataFrame) -> pd.Series:
 
         # sum up volumes through all stages
         df.loc[0, 'volume'] = sum(task_df.loc[:, 'volume'])
+        # sum up costs through all stages
+        df.loc[0, 'cost'] = sum(task_df.loc[:, 'cost'])
         df.loc[0, 'workers'] = task_df.loc[0, 'workers']
 
         # fix task's start time and duration
-- 
2.43.0


From 882957432e94d12cc65c6933a5e78c65792adfba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:58 +0000
Subject: [PATCH 09/74] fix: LinkedList iteration skipped the last element,
 removal lost track of the tail

---
 sampo/utilities/linked_list.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sampo/utilities/linked_list.py b/sampo/utilities/linked_list.py
index 9819f77..610cbb3 100644
--- a/sampo/utilities/linked_list.py
+++ b/sampo/utilities/linked_list.py
@@ -17,7 +17,7 @@ class Iterator(Generic[T]):
         self._prev = None
 
     def __iter__(self):
-        while self._node.next is not None:
+        while self.has_next():
             yield self._node
             self.__next__()
 
@@ -36,15 +36,19 @@ class Iterator(Generic[T]):
         return self._node is not None
 
     def remove(self) -> T:
-        if self._node == self._lst._root:
+        if self._node is self._lst._root:
             old = self._lst._root
             self._lst._root = old.next
+            if self._lst._root is None:
+                self._lst._tail = None
             self._node = self._lst._root
             self._lst._len -= 1
             return old.value
         node = self._node
         next = node.next
         self._prev.next = next
+        if next is None:
+            self._lst._tail = self._prev
         self._node = next
         self._lst._len -= 1
         return node.value
-- 
2.43.0


From 11a2ce7a1a258343a33bf4d06d201afce0d193be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:49 +0000
Subject: [PATCH 10/74] fix: graph restructuring should not rename works of the
 original graph

---
 sampo/structurator/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/structurator/base.py b/sampo/structurator/base.py
index 444cc66..25af317 100644
--- a/sampo/structurator/base.py
+++ b/sampo/structurator/base.py
@@ -184,7 +184,8 @@ def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tup
         # update id attribute with current stage node id
         wu_attrs['id'] = stage_node_id
         # update name attribute with current index of stage
-        wu_attrs['model_name']['granular_name'] = f'{wu.model_name["granular_name"]}{STAGE_SEP}{stage_i}'
+        wu_attrs['model_name'] = {**wu.model_name,
+                                  'granular_name': f'{wu.model_name["granular_name"]}{STAGE_SEP}{stage_i}'}
         # update volume attribute with passed proportion
         wu_attrs['volume'] = wu.volume * volume_proportion
         # remove because it's unused field from Identifiable
-- 
2.43.0


From affd2fa4369f469765b89e0e34d42ba5cff569e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 11/74] fix: inseparable chain of a node should not be taken
 from another graph

---
 sampo/schemas/graph.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 771a474..64b9b5d 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -1,7 +1,7 @@
 from collections import deque
 from dataclasses import dataclass, field
 from enum import Enum
-from functools import cached_property, cache
+from functools import cached_property
 from random import Random
 from typing import Optional
 
@@ -129,14 +129,12 @@ class GraphNode(JSONSerializable['GraphNode']):
         self.__dict__.pop('parents_set', None)
         self.__dict__.pop('inseparable_parent', None)
         self.__dict__.pop('inseparable_son', None)
-        self.get_inseparable_chain.cache_clear()
 
     def invalidate_children_cache(self):
         self.__dict__.pop('children', None)
         self.__dict__.pop('children_set', None)
         self.__dict__.pop('inseparable_parent', None)
         self.__dict__.pop('inseparable_son', None)
-        self.get_inseparable_chain.cache_clear()
 
     def is_inseparable_parent(self) -> bool:
         return self.inseparable_son is not None
@@ -241,7 +239,6 @@ class GraphNode(JSONSerializable['GraphNode']):
     def id(self) -> str:
         return self.work_unit.id
 
-    @cache
     def get_inseparable_chain(self) -> Optional[list['GraphNode']]:
         """
         Gets an ordered list of whole chain of nodes, connected with edges of type INSEPARABLE_FINISH_START =
-- 
2.43.0


From d3be82a2d1e29e1c1d1fb6fc8a77aafe7220d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 12/74] fix: work unit should keep description, equipment and
 object requirements when serialized

---
 sampo/schemas/works.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index 8af0bf0..73ab119 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -82,6 +82,8 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         return [req.material() for req in self.material_reqs]
 
     @custom_serializer('worker_reqs')
+    @custom_serializer('equipment_reqs')
+    @custom_serializer('object_reqs')
     @custom_serializer('zone_reqs')
     @custom_serializer('material_reqs')
     def serialize_serializable_list(self, value) -> list:
@@ -116,6 +118,28 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         """
         return [WorkerReq._deserialize(wr) for wr in value]
 
+    @classmethod
+    @custom_serializer('equipment_reqs', deserializer=True)
+    def equipment_reqs_deserializer(cls, value) -> list[EquipmentReq]:
+        """
+        Get list of equipment requirements
+
+        :param value: serialized list of equipment requirements
+        :return: list of equipment requirements
+        """
+        return [EquipmentReq._deserialize(er) for er in value]
+
+    @classmethod
+    @custom_serializer('object_reqs', deserializer=True)
+    def object_reqs_deserializer(cls, value) -> list[ConstructionObjectReq]:
+        """
+        Get list of construction object requirements
+
+        :param value: serialized list of construction object requirements
+        :return: list of construction object requirements
+        """
+        return [ConstructionObjectReq._deserialize(cor) for cor in value]
+
     @classmethod
     @custom_serializer('zone_reqs', deserializer=True)
     def zone_reqs_deserializer(cls, value) -> list[ZoneReq]:
@@ -151,6 +175,7 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         self.zone_reqs = new_work_unit.zone_reqs
         self.id = new_work_unit.id
         self.model_name = new_work_unit.model_name
+        self.description = new_work_unit.description
         self.is_service_unit = new_work_unit.is_service_unit
         self.volume = new_work_unit.volume
         self.group = new_work_unit.group
-- 
2.43.0


From 2db9182275d72ee5a9d451435a539cbea892cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 13/74] fix: pickled or copied work graph should keep edges of
 its nodes

---
 sampo/schemas/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 64b9b5d..773ef95 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -436,6 +436,8 @@ class WorkGraph(JSONSerializable['WorkGraph']):
         object.__setattr__(self, 'start', deserialized.start)
         object.__setattr__(self, 'finish', deserialized.finish)
         self.__post_init__()
+        # nodes belong to this graph now, they should stay linked when the temporary one is deleted
+        deserialized.nodes = []
 
     def __del__(self):
         self.dict_nodes = None
-- 
2.43.0


From 922a0cde73cdba7c172c220759dbd7f22eafd8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 14/74] fix: node deletion should delete the whole inseparable
 chain with edges of all types

---
 sampo/structurator/delete_graph_node.py | 28 +++++++++----------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/sampo/structurator/delete_graph_node.py b/sampo/structurator/delete_graph_node.py
index a13d85a..1c58db0 100644
--- a/sampo/structurator/delete_graph_node.py
+++ b/sampo/structurator/delete_graph_node.py
@@ -16,16 +16,10 @@ def delete_graph_node(original_wg: WorkGraph, remove_gn_id: str, change_id: bool
 
     copied_remove_gn = copied_nodes[old_to_new_ids[remove_gn_id]]
 
-    inseparable_chain = copied_remove_gn.get_inseparable_chain()
-    if inseparable_chain is not None:
-        copied_remove_gn = inseparable_chain[len(inseparable_chain) - 1]
-        parent_to_delete = copied_remove_gn.inseparable_parent
-        while parent_to_delete is not None:
-            copied_remove_gn = parent_to_delete
-            parent_to_delete = copied_remove_gn.inseparable_parent
-            _node_deletion(copied_remove_gn, copied_nodes)
-    else:
-        _node_deletion(copied_remove_gn, copied_nodes)
+    while copied_remove_gn.inseparable_parent is not None:
+        copied_remove_gn = copied_remove_gn.inseparable_parent
+    for node in reversed(copied_remove_gn.get_inseparable_chain_with_self()):
+        _node_deletion(node, copied_nodes)
 
     start, finish = new_start_finish(original_wg, copied_nodes, old_to_new_ids)
 
@@ -36,15 +30,13 @@ def _node_deletion(remove_gn: GraphNode, nodes: dict[str, GraphNode]):
     parents = remove_gn.parents
     children = remove_gn.children
 
-    for parent in parents:
-        for edge in parent.edges_from:
-            if edge.finish.id == remove_gn.id:
-                parent.edges_from.remove(edge)
+    for edge in remove_gn.edges_to:
+        edge.start.edges_from.remove(edge)
+        edge.start.invalidate_children_cache()
 
-    for child in children:
-        for edge in child.edges_to:
-            if edge.start.id == remove_gn.id:
-                child.edges_to.remove(edge)
+    for edge in remove_gn.edges_from:
+        edge.finish.edges_to.remove(edge)
+        edge.finish.invalidate_parents_cache()
 
     nodes.pop(remove_gn.id)
 
-- 
2.43.0


From 00e8eb12e4ce44656fa786941bc60d856cf578bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 15/74] fix: graph insertion should pass change_id to the copy
 of the slave graph

---
 sampo/structurator/graph_insertion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/structurator/graph_insertion.py b/sampo/structurator/graph_insertion.py
index cc05c6b..d7378fe 100644
--- a/sampo/structurator/graph_insertion.py
+++ b/sampo/structurator/graph_insertion.py
@@ -16,7 +16,8 @@ def graph_in_graph_insertion(master_wg: WorkGraph, master_start: GraphNode, mast
     :return: new union WorkGraph
     """
     master_nodes, master_old_to_new_ids = prepare_work_graph_copy(master_wg, change_id=change_id)
-    slave_nodes, slave_old_to_new = prepare_work_graph_copy(slave_wg, [slave_wg.start, slave_wg.finish], change_id)
+    slave_nodes, slave_old_to_new = prepare_work_graph_copy(slave_wg, [slave_wg.start, slave_wg.finish],
+                                                            change_id=change_id)
 
     # add parent links from slave_wg's nodes to master_start node from slave_wg's nodes
     master_start = master_nodes[master_old_to_new_ids[master_start.id]]
-- 
2.43.0


From 65f25e80253d3130e15d73a801a0f12f9a1a98dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 16/74] fix: copy of a graph node should keep description,
 priority and display name

---
 sampo/structurator/prepare_wg_copy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sampo/structurator/prepare_wg_copy.py b/sampo/structurator/prepare_wg_copy.py
index 66706cf..8cde709 100644
--- a/sampo/structurator/prepare_wg_copy.py
+++ b/sampo/structurator/prepare_wg_copy.py
@@ -27,8 +27,11 @@ def copy_graph_node(node: GraphNode, new_id: int | str | None = None,
                       equipment_reqs=deepcopy(wu.equipment_reqs),
                       object_reqs=deepcopy(wu.object_reqs),
                       zone_reqs=deepcopy(wu.zone_reqs),
+                      description=wu.description,
                       group=wu.group,
-                      is_service_unit=wu.is_service_unit, volume=wu.volume)
+                      priority=wu.priority,
+                      is_service_unit=wu.is_service_unit, volume=wu.volume,
+                      display_name=wu.display_name)
     return GraphNode(new_wu, []), (wu.id, new_id)
 
 
-- 
2.43.0


From 76a3e3b047642b152ea9438c5be46941b4f3505f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 17/74] fix: plain nodes should be linked to the inserted work
 without lag

---
 sampo/structurator/insert_wu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/structurator/insert_wu.py b/sampo/structurator/insert_wu.py
index e904a3d..3b837d5 100644
--- a/sampo/structurator/insert_wu.py
+++ b/sampo/structurator/insert_wu.py
@@ -43,7 +43,7 @@ def _new_edges(copied_nodes: dict[str, GraphNode], original_old_to_new_ids: dict
 def _reduce_to_tuple_type(edges: list[GraphNode] or list[tuple[GraphNode, float, EdgeType]]) \
         -> list[tuple[GraphNode, float, EdgeType]]:
     if isinstance(edges[0], GraphNode):
-        return [(edge, -1, EdgeType.FinishStart) for edge in edges]
+        return [(edge, 0, EdgeType.FinishStart) for edge in edges]
     else:
         return edges
 
-- 
2.43.0


From 9b5d55de0d173d323204bcd002532a28f3d14480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:19 +0000
Subject: [PATCH 18/74] fix: conversion of a work graph to a frame reads absent
 fields of works

---
 sampo/schemas/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 773ef95..79c7c60 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -382,9 +382,9 @@ class WorkGraph(JSONSerializable['WorkGraph']):
                 # Get information about tasks from graph nodes (work units)
                 graph_df_structure['activity_id'].append(node_info_dict['work_unit']['id'])
                 graph_df_structure['activity_name'].append(node_info_dict['work_unit']['display_name'])
-                graph_df_structure['granular_name'].append(node_info_dict['work_unit']['name'])
+                graph_df_structure['granular_name'].append(node.work_unit.model_name['granular_name'])
                 graph_df_structure['volume'].append(node_info_dict['work_unit']['volume'])
-                graph_df_structure['measurement'].append(node_info_dict['work_unit']['volume_type'])
+                graph_df_structure['measurement'].append(node.work_unit.model_name['measurement'])
                 graph_df_structure['priority'].append(node_info_dict['work_unit']['priority'])
 
                 if save_req:
-- 
2.43.0


From a19a0ea04c4bb5d7da7b3d36c2b03abb2b097595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:38 +0000
Subject: [PATCH 19/74] fix: simplified id of the first work should be numeric

---
 sampo/structurator/prepare_wg_copy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/structurator/prepare_wg_copy.py b/sampo/structurator/prepare_wg_copy.py
index 8cde709..8c9c804 100644
--- a/sampo/structurator/prepare_wg_copy.py
+++ b/sampo/structurator/prepare_wg_copy.py
@@ -15,7 +15,7 @@ def copy_graph_node(node: GraphNode, new_id: int | str | None = None,
     :return: copy of GraphNode and pair(old node id, new node id)
     """
     if change_id:
-        new_id = new_id or uuid_str()
+        new_id = uuid_str() if new_id is None else new_id
         new_id = str(new_id) if isinstance(new_id, int) else new_id
     else:
         new_id = node.work_unit.id
-- 
2.43.0


From 5ddc99c26890e6ed72f00a3200daf6f3ee56f3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 20/74] fix: loading from a dict should not change the dict

---
 sampo/schemas/graph.py        | 9 +++++----
 sampo/schemas/schedule.py     | 3 +--
 sampo/schemas/serializable.py | 7 ++-----
 3 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 79c7c60..3a04375 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -94,10 +94,11 @@ class GraphNode(JSONSerializable['GraphNode']):
 
     @classmethod
     def _deserialize(cls, representation: T) -> dict:
-        representation['work_unit'] = WorkUnit._deserialize(representation['work_unit'])
-        representation['parent_edges'] = [(e[0], e[1], EdgeType(e[2])) for e in representation['parent_edges']]
-        # representation['child_edges'] = [(e[0], e[1], EdgeType(e[2])) for e in representation['child_edges']]
-        return representation
+        return {
+            'work_unit': WorkUnit._deserialize(representation['work_unit']),
+            'parent_edges': [(e[0], e[1], EdgeType(e[2])) for e in representation['parent_edges']],
+            # 'child_edges': [(e[0], e[1], EdgeType(e[2])) for e in representation['child_edges']]
+        }
 
     def update_work_unit(self, work_unit: WorkUnit) -> None:
         self._work_unit = work_unit
diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index 1d85196..02d5c12 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -101,8 +101,7 @@ class Schedule(JSONSerializable['Schedule']):
     @classmethod
     def _deserialize(cls, dict_representation: T) -> 'Schedule':
         # Method described in base class
-        dict_representation['works'] = [ScheduledWork._deserialize(sw) for sw in dict_representation['works']]
-        return Schedule.from_scheduled_works(**dict_representation)
+        return Schedule.from_scheduled_works([ScheduledWork._deserialize(sw) for sw in dict_representation['works']])
 
     @lru_cache
     def merged_stages_datetime_df(self, offset: Union[datetime, str]) -> DataFrame:
diff --git a/sampo/schemas/serializable.py b/sampo/schemas/serializable.py
index d158127..31e0ccd 100644
--- a/sampo/schemas/serializable.py
+++ b/sampo/schemas/serializable.py
@@ -403,10 +403,7 @@ class AutoJSONSerializable(JSONSerializable[AJS], ABC):
                                                                                           CUSTOM_TYPE_DESERIALIZER)]
                                                for attr in [getattr(cls, name) for name in dir(cls)]
                                                if hasattr(attr, CUSTOM_TYPE_DESERIALIZER)]))
-        type_hints = {}
-        if TYPE_HINTS in dict_representation:
-            type_hints = dict_representation[TYPE_HINTS]
-            del dict_representation[TYPE_HINTS]
+        type_hints = dict_representation.get(TYPE_HINTS, {})
 
         def deserialize_field(name, value):
             """
@@ -430,7 +427,7 @@ class AutoJSONSerializable(JSONSerializable[AJS], ABC):
         fields = dict({f: None for f in cls.ignored_fields},
                       **{k: deserialize_field(k, v)
                          for k, v in dict_representation.items()
-                         if k not in cls.ignored_fields})
+                         if k not in cls.ignored_fields and k != TYPE_HINTS})
 
         self = cls.__new__(cls)
         try:
-- 
2.43.0


From 25acbf4c495fd521e7534bbc55e2ddb4bc4bb868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:42 +0000
Subject: [PATCH 21/74] fix: copies of workers and materials should keep their
 cost

---
 sampo/schemas/resources.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/schemas/resources.py b/sampo/schemas/resources.py
index ce96871..7708204 100644
--- a/sampo/schemas/resources.py
+++ b/sampo/schemas/resources.py
@@ -81,7 +81,8 @@ class Worker(Resource):
                       name=self.name,
                       count=self.count,
                       contractor_id=self.contractor_id,
-                      productivity=self.productivity)
+                      productivity=self.productivity,
+                      cost_one_unit=self.cost_one_unit)
 
     def with_count(self, count: int) -> 'Worker':
         """
@@ -155,7 +156,8 @@ class Material(Resource):
     def copy(self) -> 'Material':
         return Material(id=self.id,
                         name=self.name,
-                        count=self.count)
+                        count=self.count,
+                        cost_one_unit=self.cost_one_unit)
 
     def with_count(self, count: int) -> 'Material':
         self.count = count
-- 
2.43.0


From cf473172e87435d1caf5a9e395f76df93afa2e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:12 +0000
Subject: [PATCH 22/74] fix: neighbors of a node should be updated when edges
 are added

---
 sampo/schemas/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 3a04375..9700a87 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -128,6 +128,7 @@ class GraphNode(JSONSerializable['GraphNode']):
     def invalidate_parents_cache(self):
         self.__dict__.pop('parents', None)
         self.__dict__.pop('parents_set', None)
+        self.__dict__.pop('neighbors', None)
         self.__dict__.pop('inseparable_parent', None)
         self.__dict__.pop('inseparable_son', None)
 
-- 
2.43.0


From 373fbbd43c1542f08603bdf20426340e100f7526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:55 +0000
Subject: [PATCH 23/74] fix: MomentumTimeline keeps the lag of an inseparable
 edge

---
 sampo/scheduler/timeline/momentum_timeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index 3f07e5f..deac3b2 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -123,6 +123,10 @@ class MomentumTimeline(Timeline):
                     work_estimator.estimate_time(chain_node.work_unit, worker_team)
 
             lag_req = nodes_max_parent_times[chain_node] - max_parent_time - exec_time
+            # the previous link of the chain is not scheduled yet, so its edge's lag is not in the parent time
+            if chain_node is not node:
+                lag_req = max([lag_req] + [Time(int(edge.lag)) for edge in chain_node.edges_to
+                                           if edge.start == chain_node.inseparable_parent])
             lag = lag_req if lag_req > 0 else 0
 
             exec_times[chain_node] = lag, node_exec_time
-- 
2.43.0


From 63aab8c02e124e05744a5f4841fc8ead54a41c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:32 +0000
Subject: [PATCH 24/74] fix: copy of a block graph keeps the direction of its
 edges

---
 sampo/scheduler/multi_agency/block_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/multi_agency/block_graph.py b/sampo/scheduler/multi_agency/block_graph.py
index a8a808e..a051e01 100644
--- a/sampo/scheduler/multi_agency/block_graph.py
+++ b/sampo/scheduler/multi_agency/block_graph.py
@@ -56,7 +56,7 @@ class BlockGraph:
         return len(self.nodes)
 
     def __copy__(self) -> 'BlockGraph':
-        parent_ids = [[parent.id for parent in node.blocks_to] for node in self.nodes]
+        parent_ids = [[parent.id for parent in node.blocks_from] for node in self.nodes]
         nodes = [BlockNode(old_node.wg, old_node.obstruction) for old_node in self.nodes]
         nodes_index = build_index(nodes, attrgetter('id'))
 
@@ -82,7 +82,7 @@ class BlockGraph:
         global_start = GraphNode(WorkUnit('start', 'start', is_service_unit=True), [])
 
         for end in copied_nodes:
-            end.wg.start.add_parents([start.wg.finish for start in end.blocks_to])
+            end.wg.start.add_parents([start.wg.finish for start in end.blocks_from])
             if len(end.wg.start.parents) == 0:
                 end.wg.start.add_parents([global_start])
             if len(end.wg.finish.children) == 0:
-- 
2.43.0


From d6e8cc603a072ea98be1a943605f5ce98b542e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:32 +0000
Subject: [PATCH 25/74] fix: work graph made of a block graph keeps the edges
 of its nodes

---
 sampo/scheduler/multi_agency/block_graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/multi_agency/block_graph.py b/sampo/scheduler/multi_agency/block_graph.py
index a051e01..3cfb913 100644
--- a/sampo/scheduler/multi_agency/block_graph.py
+++ b/sampo/scheduler/multi_agency/block_graph.py
@@ -93,7 +93,11 @@ class BlockGraph:
         # global_start: GraphNode = [node for node in copied_nodes if len(node.blocks_to) == 0][0].wg.start
         # global_end:   GraphNode = [node for node in copied_nodes if len(node.blocks_from) == 0][0].wg.finish
 
-        return WorkGraph(global_start, global_end)
+        result = WorkGraph(global_start, global_end)
+        # nodes belong to the united graph now, they should stay linked when the graphs of blocks are deleted
+        for node in copied_nodes:
+            node.wg.nodes = []
+        return result
 
     def toposort(self) -> list[BlockNode]:
         """
-- 
2.43.0


From f6d5f6fbe5053a323d76f017ae7e99c3f5f1db1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 26/74] fix: JustInTimeTimeline should not start an independent
 work before its parents

---
 .../scheduler/timeline/just_in_time_timeline.py  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index 7115b87..60d70a9 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -142,6 +142,14 @@ class JustInTimeTimeline(Timeline):
                                    node2swork: dict[GraphNode, ScheduledWork],
                                    start_time: Time,
                                    exec_time: Time) -> bool:
+        # checking edges
+        chain = set(node.get_inseparable_chain_with_self())
+        for dep_node in chain:
+            if any(p not in chain and p not in node2swork for p in dep_node.parents):
+                return False
+        if node.min_start_time(node2swork) > start_time:
+            return False
+
         if spec.is_independent:
             # squash all the timeline to the last point
             for worker in worker_team:
@@ -151,14 +159,6 @@ class JustInTimeTimeline(Timeline):
                     return False
             return True
         else:
-            # checking edges
-            chain = set(node.get_inseparable_chain_with_self())
-            for dep_node in chain:
-                if any(p not in chain and p not in node2swork for p in dep_node.parents):
-                    return False
-            if node.min_start_time(node2swork) > start_time:
-                return False
-
             max_agent_time = Time(0)
             for worker in worker_team:
                 needed_count = worker.count
-- 
2.43.0


From b3c1aa5646b16485fcc20262df540274dfca7a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 27/74] fix: parallel SGS should apply the worker spec before
 time and availability of the team are computed

---
 sampo/scheduler/genetic/converter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index 4cea529..41e7113 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -174,6 +174,8 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
                                          .copy().with_count(worker_count)
                                          for worker_index, worker_count in enumerate(cur_resources)
                                          if worker_count > 0]
+        # apply worker spec
+        Scheduler.optimize_resources_using_spec(cur_node.work_unit, cur_worker_team, cur_work_spec)
         if cur_work_spec.assigned_time is not None:
             cur_exec_time = cur_work_spec.assigned_time
         else:
@@ -194,9 +196,6 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
         idx, (work_idx, node, worker_team, contractor, exec_time, work_spec) = args
 
         if timeline.can_schedule_at_the_moment(node, worker_team, work_spec, node2swork, start_time, exec_time):
-            # apply worker spec
-            Scheduler.optimize_resources_using_spec(node.work_unit, worker_team, work_spec)
-
             st = start_time
             if idx == 0:  # we are scheduling the work `start of the project`
                 st = assigned_parent_time  # this work should always have st = 0, so we just re-assign it
-- 
2.43.0


From d95047063c964db5d1b46ed6cb65e25704de5683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 28/74] fix: chromosome whose contractor can't provide the
 assigned workers is not correct

---
 sampo/scheduler/genetic/operators.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/sampo/scheduler/genetic/operators.py b/sampo/scheduler/genetic/operators.py
index 119a4bc..2361394 100644
--- a/sampo/scheduler/genetic/operators.py
+++ b/sampo/scheduler/genetic/operators.py
@@ -221,7 +221,8 @@ def init_toolbox(wg: WorkGraph,
                      statuses_available=landscape.zone_config.statuses.statuses_available())
 
     toolbox.register('validate', is_chromosome_correct, node_indices=node_indices, parents=parents,
-                     contractor_borders=contractor_borders, index2node=index2node, index2contractor=index2contractor_obj)
+                     contractor_borders=contractor_borders, index2node=index2node, index2contractor=index2contractor_obj,
+                     worker_name2index=worker_name2index)
     toolbox.register('schedule_to_chromosome', convert_schedule_to_chromosome,
                      work_id2index=work_id2index, worker_name2index=worker_name2index,
                      contractor2index=contractor2index, contractor_borders=contractor_borders, spec=spec,
@@ -390,12 +391,14 @@ def select_new_population(population: list[Individual], k: int) -> list[Individu
 
 def is_chromosome_correct(ind: Individual, node_indices: list[int], parents: dict[int, set[int]],
                           contractor_borders: np.ndarray, index2node: dict[int, GraphNode],
-                          index2contractor: dict[int, Contractor]) -> bool:
+                          index2contractor: dict[int, Contractor],
+                          worker_name2index: dict[str, int]) -> bool:
     """
     Check correctness of works order and contractors borders.
     """
     return is_chromosome_order_correct(ind, parents, index2node) and \
-        is_chromosome_contractors_correct(ind, node_indices, contractor_borders, index2node, index2contractor)
+        is_chromosome_contractors_correct(ind, node_indices, contractor_borders, index2node, index2contractor,
+                                          worker_name2index)
 
 
 def is_chromosome_order_correct(ind: Individual, parents: dict[int, set[int]], index2node: dict[int, GraphNode]) -> bool:
@@ -421,7 +424,8 @@ def is_chromosome_order_correct(ind: Individual, parents: dict[int, set[int]], i
 def is_chromosome_contractors_correct(ind: Individual, work_indices: Iterable[int],
                                       contractor_borders: np.ndarray,
                                       index2node: dict[int, GraphNode],
-                                      index2contractor: dict[int, Contractor]) -> bool:
+                                      index2contractor: dict[int, Contractor],
+                                      worker_name2index: dict[str, int]) -> bool:
     """
     Checks that assigned contractors can supply assigned workers.
     """
@@ -436,9 +440,15 @@ def is_chromosome_contractors_correct(ind: Individual, work_indices: Iterable[in
     contractors = resources[:, -1]
     for i in range(len(order)):
         work_index = order[i]
-        work_spec = spec[index2node[work_index].id]
+        work_node = index2node[work_index]
+        work_spec = spec[work_node.id]
         if not work_spec.is_contractor_enabled(index2contractor[contractors[work_index]].id):
             return False
+        # workers assigned by the spec replace the genes when the schedule is built
+        for wreq in work_node.work_unit.worker_reqs:
+            worker_index = worker_name2index[wreq.kind]
+            resources[work_index, worker_index] = max(resources[work_index, worker_index],
+                                                      work_spec.assigned_workers.get(wreq.kind, 0))
 
     # sort resource part of chromosome by contractor ids
     resources = resources[resources[:, -1].argsort()]
-- 
2.43.0


From 25001aea9546f898c60f719c50deae9ba1c1e1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:34 +0000
Subject: [PATCH 29/74] fix: sum of resources should read the name of a worker

---
 sampo/utilities/resource_usage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/utilities/resource_usage.py b/sampo/utilities/resource_usage.py
index faab513..05c13e4 100644
--- a/sampo/utilities/resource_usage.py
+++ b/sampo/utilities/resource_usage.py
@@ -47,7 +47,7 @@ def resources_sum(schedule: Schedule, resources_names: Iterable[str] | None = No
     resources_names = set(resources_names) if not is_none else {}
 
     res_sum = sum([sum([worker.count * work.duration.value for worker in work.workers
-                        if worker.model_name in resources_names or is_none], start=0)
+                        if worker.name in resources_names or is_none], start=0)
                    for work in schedule.works])
 
     return res_sum
-- 
2.43.0


From 5639dd91e758ba73eedf0ee0a49479856be0f1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 30/74] fix: pipeline should accept contractors that lack some
 kinds of workers

---
 sampo/pipeline/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 79c1c80..3ad610a 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -34,7 +34,7 @@ def contractors_can_perform_work_graph(contractors: list[Contractor], wg: WorkGr
         for contractor in contractors:
             offers = contractor.workers
             for req in reqs:
-                if req.min_count > offers[req.kind].count:
+                if req.kind not in offers or req.min_count > offers[req.kind].count:
                     is_at_least_one_contractor_can_perform = False
                     break
             if is_at_least_one_contractor_can_perform:
-- 
2.43.0


From 57487a3fff1ed4a69d8b8c6bed20202abf620335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 31/74] fix: restructuring of an already restructured graph
 should not make loops

---
 sampo/structurator/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/structurator/base.py b/sampo/structurator/base.py
index 25af317..811ac1a 100644
--- a/sampo/structurator/base.py
+++ b/sampo/structurator/base.py
@@ -41,8 +41,10 @@ def fill_parents_to_new_nodes(origin_node: GraphNode, id2new_nodes: dict[str, Gr
     last_stage_id = origin_node.id
     # make first stage id
     first_stage_id = make_new_node_id(origin_node.id, 0)
-    # if first stage id not in id2new_nodes then there are no stages, so then first stage id is equal to last stage id
-    first_stage_id = first_stage_id if first_stage_id in id2new_nodes else last_stage_id
+    # if node was not divided then there are no stages, so then first stage id is equal to last stage id
+    # (node with such id can still exist if the original graph was restructured before)
+    is_divided = id2new_nodes[last_stage_id].inseparable_parent is not None
+    first_stage_id = first_stage_id if is_divided else last_stage_id
 
     # basic time lag of FinishStart or InseparableFinishStart edges
     indent = 0
-- 
2.43.0


From 25b1762672adb68deeee6c726a83e13800360b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 32/74] fix: pipeline should restructure the graph for the TRUE
 and FALSE lag optimization

---
 sampo/pipeline/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 3ad610a..3778ed5 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -276,7 +276,7 @@ class DefaultInputPipeline(InputPipeline):
                     wg = wg2
                     schedules = schedules2
 
-            case LagOptimizationStrategy.TRUE, LagOptimizationStrategy.FALSE:
+            case LagOptimizationStrategy.TRUE | LagOptimizationStrategy.FALSE:
                 wg = graph_restructuring(self._wg, self._lag_optimize.value)
                 schedules = scheduler.schedule_with_cache(wg, self._contractors,
                                                           self._spec,
-- 
2.43.0


From 38d60f12a0f676093b572d1377218ee8ad553963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:43 +0000
Subject: [PATCH 33/74] fix: terms given for a work should apply to the stages
 it is divided into

---
 sampo/pipeline/default.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 3778ed5..23c5da3 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -1,5 +1,8 @@
+from copy import copy
+
 import pandas as pd
 
+from sampo.api.const import STAGE_SEP
 from sampo.generator.environment import ContractorGenerationMethod, get_contractor_by_wg
 from sampo.pipeline.base import InputPipeline, SchedulePipeline
 from sampo.pipeline.delegating import DelegatingScheduler
@@ -48,6 +51,22 @@ def contractors_can_perform_work_graph(contractors: list[Contractor], wg: WorkGr
     return True
 
 
+def get_spec_with_stages(spec: ScheduleSpec, wg: WorkGraph) -> ScheduleSpec:
+    """
+    Terms given for a work should be satisfied by all stages it was divided into.
+
+    :param spec: terms given for the works of the original graph
+    :param wg: restructured graph
+    :return: terms for the works of the restructured graph
+    """
+    stages_spec = ScheduleSpec(copy(spec._work2spec))
+    for node in wg.nodes:
+        origin_id = node.id.split(STAGE_SEP)[0]
+        if origin_id != node.id and origin_id in spec._work2spec:
+            stages_spec._work2spec[node.id] = spec.get_work_spec(origin_id)
+    return stages_spec
+
+
 class DefaultInputPipeline(InputPipeline):
     """
     Default pipeline, that help to use the framework
@@ -248,8 +267,9 @@ class DefaultInputPipeline(InputPipeline):
             case LagOptimizationStrategy.AUTO:
                 # Searching the best
                 wg1 = graph_restructuring(self._wg, False)
+                spec1 = get_spec_with_stages(self._spec, wg1)
                 schedules = scheduler.schedule_with_cache(wg1, self._contractors,
-                                                          self._spec,
+                                                          spec1,
                                                           landscape=self._landscape_config,
                                                           assigned_parent_time=self._assigned_parent_time,
                                                           validate=validate)
@@ -258,8 +278,9 @@ class DefaultInputPipeline(InputPipeline):
                 min_time1 = min([schedule.execution_time for schedule in schedules1])
 
                 wg2 = graph_restructuring(self._wg, True)
+                spec2 = get_spec_with_stages(self._spec, wg2)
                 schedules = scheduler.schedule_with_cache(wg2, self._contractors,
-                                                          self._spec,
+                                                          spec2,
                                                           landscape=self._landscape_config,
                                                           assigned_parent_time=self._assigned_parent_time,
                                                           validate=validate)
@@ -269,15 +290,18 @@ class DefaultInputPipeline(InputPipeline):
 
                 if min_time1 < min_time2:
                     self._node_orders = node_orders1
+                    self._spec = spec1
                     wg = wg1
                     schedules = schedules1
                 else:
                     self._node_orders = node_orders2
+                    self._spec = spec2
                     wg = wg2
                     schedules = schedules2
 
             case LagOptimizationStrategy.TRUE | LagOptimizationStrategy.FALSE:
                 wg = graph_restructuring(self._wg, self._lag_optimize.value)
+                self._spec = get_spec_with_stages(self._spec, wg)
                 schedules = scheduler.schedule_with_cache(wg, self._contractors,
                                                           self._spec,
                                                           landscape=self._landscape_config,
-- 
2.43.0


From a167a12011bb5f719bc32da3ecbda3f344fcdbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 34/74] fix: swapping of nodes should not break the topological
 order

---
 sampo/scheduler/utils/local_optimization.py | 42 +++++++++++++--------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index 194e5fd..24d36d2 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -59,6 +59,16 @@ class ScheduleLocalOptimizer(ABC):
         ...
 
 
+def get_node_indexes(node_order: list[GraphNode], start_index: int, end_index: int) -> dict[GraphNode, int]:
+    """
+    Maps nodes from the area to their indexes in the order.
+    Inseparable chains are placed into the order by their heads, so all nodes of the chain share the index of the head.
+    """
+    return {chain_node: start_index + ind
+            for ind, node in enumerate(node_order[start_index:end_index])
+            for chain_node in node.get_inseparable_chain_with_self()}
+
+
 def get_swap_candidates(node: GraphNode,
                         node_index: int,
                         candidates: Iterable[GraphNode],
@@ -70,23 +80,25 @@ def get_swap_candidates(node: GraphNode,
 
     :param node: target node
     :param node_index: index of target node in global sequence
-    :param candidates: list of candidates to swapping
+    :param candidates: list of candidates to swapping, they should be placed before the target node
     :param node2ind: a dict from node to its index
     :param processed: a set of nodes that should not be swapped yet
     """
-    cur_children: set[GraphNode] = node.children_set
+    node_parents: set[GraphNode] = {parent for chain_node in node.get_inseparable_chain_with_self()
+                                    for parent in chain_node.parents}
 
     def is_candidate_accepted(candidate: GraphNode) -> bool:
-        if candidate in cur_children or candidate in processed:
+        if candidate in processed:
             return False
         candidate_ind = node2ind[candidate]
-        for child in cur_children:
-            if node2ind.get(child, 0) >= candidate_ind:  # we have a child between us and candidate
-                return False
-        candidate_parents = candidate.parents
-        for parent in candidate_parents:
-            if node2ind.get(parent, 0) <= node_index:  # candidate has a parent between us and candidate
+        for parent in node_parents:
+            if candidate_ind <= node2ind.get(parent, -1) < node_index:  # we have a parent between us and candidate
                 return False
+        for chain_node in candidate.get_inseparable_chain_with_self():
+            for child in chain_node.children:
+                # candidate has a child between us and candidate
+                if candidate_ind < node2ind.get(child, -1) <= node_index:
+                    return False
         return True
 
     return [candidate for candidate in candidates if is_candidate_accepted(candidate)]
@@ -111,8 +123,7 @@ class SwapOrderLocalOptimizer(OrderLocalOptimizer):
         # node2cost = {node: work_priority(node, calculate_working_time_cascade, work_estimator) for node in sub_seq}
 
         # preprocessing
-        node2ind: dict[GraphNode, int] = {node: start_index + ind for ind, node in
-                                          enumerate(node_order[start_index:end_index])}
+        node2ind: dict[GraphNode, int] = get_node_indexes(node_order, start_index, end_index)
 
         # temporary for usability measurement
         swapped = 0
@@ -133,8 +144,10 @@ class SwapOrderLocalOptimizer(OrderLocalOptimizer):
                 node_order[i], node_order[swap_idx] = node_order[swap_idx], node_order[i]
                 # print(f'Swapped {i} and {swap_idx}')
                 processed.add(chain_candidate)
-                node2ind[chain_candidate] = i
-                node2ind[node] = swap_idx
+                for chain_node in chain_candidate.get_inseparable_chain_with_self():
+                    node2ind[chain_node] = i
+                for chain_node in node.get_inseparable_chain_with_self():
+                    node2ind[chain_node] = swap_idx
                 swapped += 1
 
             processed.add(node)
@@ -217,8 +230,7 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
         end_index = area.stop
         
         # preprocessing
-        node2ind: dict[GraphNode, int] = {node: start_index + ind for ind, node in
-                                          enumerate(node_order[start_index:end_index])}
+        node2ind: dict[GraphNode, int] = get_node_indexes(node_order, start_index, end_index)
 
         processed: set[GraphNode] = set()
 
-- 
2.43.0


From c5714091b073a5ecea078564e4f22db480e8662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:01 +0000
Subject: [PATCH 35/74] fix: parallelizing of works should keep teams and times
 of the schedule valid

---
 sampo/scheduler/utils/local_optimization.py | 46 +++++++++++----------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index 24d36d2..3027c7d 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -194,16 +194,13 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
 
         id2contractor = build_index(contractors, attrgetter('name'))
 
-        for index, node in enumerate(node_order):
+        for node in node_order:
             node_schedule = node2swork[node]
             work_spec = spec.get_work_spec(node.id)
-            # st = timeline.find_min_start_time(node, node_schedule.workers, node2swork_new)
-            # ft = st + node_schedule.get_actual_duration(work_estimator)
+            # whole inseparable chain is placed here with the new times
             timeline.schedule(node, node2swork_new, node_schedule.workers,
                               id2contractor[node_schedule.contractor], work_spec, None, work_spec.assigned_time,
                               assigned_parent_time, work_estimator)
-            # node_schedule.start_end_time = (st, ft)
-            node2swork_new[node] = node_schedule
 
         return node2swork_new
 
@@ -238,6 +235,8 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
             node = node_order[i]
             if node in processed:
                 continue
+            if spec.get_work_spec(node.id).assigned_workers:  # worker team of this work is given
+                continue
             chain_candidates: list[GraphNode] = node_order[start_index:i]
             accepted_candidates = get_swap_candidates(node, i, chain_candidates, node2ind, processed)
 
@@ -245,30 +244,35 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
             my_workers: dict[str, Worker] = build_index(my_schedule.workers, attrgetter('name'))
             my_schedule_reqs: dict[str, WorkerReq] = build_index(node.work_unit.worker_reqs, attrgetter('kind'))
 
-            new_my_workers = {}
-
             # now accepted_candidates is a list of nodes that can(according to dependencies) run in parallel
             for candidate in accepted_candidates:
+                if spec.get_work_spec(candidate.id).assigned_workers:  # worker team of this work is given
+                    continue
+
                 candidate_schedule = scheduled_works[candidate]
 
                 candidate_schedule_reqs: dict[str, WorkerReq] = build_index(candidate.work_unit.worker_reqs,
                                                                             attrgetter('kind'))
 
+                new_my_workers: dict[str, int] = {}
                 new_candidate_workers: dict[str, int] = {}
 
                 satisfy = True
 
                 for candidate_worker in candidate_schedule.workers:
-                    my_worker = my_workers.get(candidate_worker.model_name, None)
-                    if my_worker is None:  # these two works are not compete for this worker
+                    my_worker = my_workers.get(candidate_worker.name, None)
+                    # these two works are not compete for this worker
+                    if my_worker is None or my_worker.contractor_id != candidate_worker.contractor_id:
                         continue
 
-                    need_me = my_workers[candidate_worker.model_name].count
+                    need_me = my_workers[candidate_worker.name].count
                     need_candidate = candidate_worker.count
 
-                    total = need_me + need_candidate
-                    my_req = my_schedule_reqs[candidate_worker.model_name]
-                    candidate_req = candidate_schedule_reqs[candidate_worker.model_name]
+                    # both works can't take more than contractor has
+                    total = min(need_me + need_candidate,
+                                worker_pool[candidate_worker.name][candidate_worker.contractor_id].count)
+                    my_req = my_schedule_reqs[candidate_worker.name]
+                    candidate_req = candidate_schedule_reqs[candidate_worker.name]
                     needed_min = my_req.min_count + candidate_req.min_count
 
                     if needed_min > total:  # these two works can't run in parallel
@@ -279,29 +283,29 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
                     my_worker_count = my_req.min_count
                     total -= needed_min
 
-                    add_me = min(my_req.max_count, total // 2)
-                    add_candidate = min(candidate_req.max_count, total - add_me)
+                    add_me = min(my_req.max_count - my_req.min_count, total // 2)
+                    add_candidate = min(candidate_req.max_count - candidate_req.min_count, total - add_me)
 
                     my_worker_count += add_me
                     candidate_worker_count += add_candidate
 
-                    new_my_workers[candidate_worker.model_name] = my_worker_count
-                    new_candidate_workers[candidate_worker.model_name] = candidate_worker_count
+                    new_my_workers[candidate_worker.name] = my_worker_count
+                    new_candidate_workers[candidate_worker.name] = candidate_worker_count
 
                 if satisfy:  # replacement found, apply changes and leave candidates bruteforce
-                    print(f'Found! {candidate.work_unit.name} {node.work_unit.name}')
+                    print(f'Found! {candidate.work_unit.display_name} {node.work_unit.display_name}')
                     for worker in my_schedule.workers:
-                        worker_count = new_my_workers.get(worker.model_name, None)
+                        worker_count = new_my_workers.get(worker.name, None)
                         if worker_count is not None:
                             worker.count = worker_count
                     for worker in candidate_schedule.workers:
-                        worker_count = new_candidate_workers.get(worker.model_name, None)
+                        worker_count = new_candidate_workers.get(worker.name, None)
                         if worker_count is not None:
                             worker.count = worker_count
                     # candidate_schedule.start_time = my_schedule.start_time
                     break
 
-        return self.recalc_schedule(reversed(node_order), contractors, landscape_config, spec, scheduled_works,
+        return self.recalc_schedule(node_order, contractors, landscape_config, spec, scheduled_works,
                                     worker_pool, assigned_parent_time, work_estimator)
 
 
-- 
2.43.0


From 2ca04fb4e13cd764edfaec1553685f8b5350013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 36/74] fix: several local optimizations of a schedule should
 not break the pipeline

---
 sampo/schemas/apply_queue.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sampo/schemas/apply_queue.py b/sampo/schemas/apply_queue.py
index 4f5a637..c31acb8 100644
--- a/sampo/schemas/apply_queue.py
+++ b/sampo/schemas/apply_queue.py
@@ -14,14 +14,14 @@ class ApplyQueue:
         self.stack.append((function, args))
         return self
 
-    def apply(self, *first_args):
+    def apply(self, first_arg, *other_args):
         """
-        Sequentially applies functions to the result of previous function and the args stored in queue.
+        Sequentially applies functions to the result of previous function, other given args and the args stored in queue.
         """
-        res = first_args
+        res = first_arg
         for f, args in self.stack:
-            res = (f(*res, *args),)
-        return res[0]
+            res = f(res, *other_args, *args)
+        return res
 
     def empty(self) -> bool:
         return len(self.stack) == 0
-- 
2.43.0


From 4372cfa2c4da34f4ddffc4a08d9692a8a0585c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 37/74] fix: local optimization should accept an area larger
 than the order of nodes

---
 sampo/scheduler/utils/local_optimization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index 3027c7d..12b5aa6 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -116,6 +116,8 @@ class SwapOrderLocalOptimizer(OrderLocalOptimizer):
         if node_order is None:
             return
 
+        # inseparable chains are placed into the order by their heads, so it can be shorter than the graph
+        area = range(area.start, min(area.stop, len(node_order)))
         start_index = area.start
         end_index = area.stop
 
@@ -223,6 +225,8 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
         :param area:
         :return:
         """
+        # inseparable chains are placed into the order by their heads, so it can be shorter than the graph
+        area = range(area.start, min(area.stop, len(node_order)))
         start_index = area.start
         end_index = area.stop
         
-- 
2.43.0


From 076a6df40f59419714340ed6f86fe9c9d8ee2bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 38/74] fix: random values of intervals should stay within the
 borders

---
 sampo/schemas/interval.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sampo/schemas/interval.py b/sampo/schemas/interval.py
index 7aec4cc..0c1f5dc 100644
--- a/sampo/schemas/interval.py
+++ b/sampo/schemas/interval.py
@@ -1,3 +1,4 @@
+import math
 import random
 from abc import abstractmethod, ABC
 from dataclasses import dataclass
@@ -7,12 +8,23 @@ from typing import Optional
 from sampo.schemas.serializable import AutoJSONSerializable
 
 # to work with float and avoid errors due to inaccuracy
-EPS = 1e5
+EPS = 1e-5
 # to work with distributions when certain start and finish value is undefined
 INF = float('inf')
 MINUS_INF = float('-inf')
 
 
+def _clamp_int(value: int, min_val: float, max_val: float) -> int:
+    """
+    Move an integer into the borders (that may be infinite)
+    """
+    if min_val != MINUS_INF:
+        value = max(value, math.ceil(min_val - EPS))
+    if max_val != INF:
+        value = min(value, math.floor(max_val + EPS))
+    return value
+
+
 # TODO: Take out common parts, deal with types, rethink intervals
 
 
@@ -74,10 +86,7 @@ class IntervalUniform(Interval):
         """
         rand = rand or self.rand
         value = round(rand.uniform(self.min_val, self.max_val))
-        # TODO fix cast math.inf to int
-        value = max(value, int(self.min_val - EPS))
-        value = min(value, int(self.max_val + EPS))
-        return value
+        return _clamp_int(value, self.min_val, self.max_val)
 
 
 @dataclass(frozen=True)
@@ -121,7 +130,4 @@ class IntervalGaussian(Interval):
         """
         rand = rand or self.rand
         value = round(rand.gauss(self.mean, self.sigma))
-        # TODO fix cast math.inf to int
-        value = max(value, int(self.min_val - EPS))
-        value = min(value, int(self.max_val + EPS))
-        return value
+        return _clamp_int(value, self.min_val, self.max_val)
-- 
2.43.0


From 0e262a9040ea44854e15d1f79b983781cad583ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 39/74] fix: borders of the default productivity should not be
 swapped

---
 sampo/schemas/time_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/schemas/time_estimator.py b/sampo/schemas/time_estimator.py
index 441124b..8500783 100644
--- a/sampo/schemas/time_estimator.py
+++ b/sampo/schemas/time_estimator.py
@@ -63,7 +63,7 @@ class DefaultWorkEstimator(WorkTimeEstimator):
         self._estimation_mode = WorkEstimationMode.Realistic
         self.rand = rand
         self._productivity_mode = WorkerProductivityMode.Static
-        self._productivity = {worker: {'__ALL__': IntervalGaussian(1, 0.2, 1, 0)}
+        self._productivity = {worker: {'__ALL__': IntervalGaussian(1, 0.2, 0, 1)}
                               for worker in ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']}
 
     def find_work_resources(self,
-- 
2.43.0


From 8918811aec1811ad5286888b471c89551f1788ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 40/74] fix: planning to a deadline should not fail when no
 contractor can perform the works

---
 sampo/scheduler/resources_in_time/average_binary_search.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/resources_in_time/average_binary_search.py b/sampo/scheduler/resources_in_time/average_binary_search.py
index eb0df9f..70e89d8 100644
--- a/sampo/scheduler/resources_in_time/average_binary_search.py
+++ b/sampo/scheduler/resources_in_time/average_binary_search.py
@@ -42,7 +42,8 @@ class AverageBinarySearchResourceOptimizingScheduler:
                 return (None, Time.inf(), None, None), inner_spec
 
         def fitness(k: float, inner_spec: ScheduleSpec):
-            result = call_scheduler(k, inner_spec)[0][0].execution_time
+            schedule = call_scheduler(k, inner_spec)[0][0]
+            result = Time.inf() if schedule is None else schedule.execution_time
             # if result > deadline:
             #     result = Time.inf()
             return result
-- 
2.43.0


From 5427870f47be2f87c143003a40dfc1595d004c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 41/74] fix: planning to a deadline should keep the terms given
 by the user

---
 .../scheduler/resources_in_time/average_binary_search.py  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/resources_in_time/average_binary_search.py b/sampo/scheduler/resources_in_time/average_binary_search.py
index 70e89d8..996f64d 100644
--- a/sampo/scheduler/resources_in_time/average_binary_search.py
+++ b/sampo/scheduler/resources_in_time/average_binary_search.py
@@ -49,8 +49,6 @@ class AverageBinarySearchResourceOptimizingScheduler:
             return result
 
         copied_spec = deepcopy(spec)
-        # FIXME Investigate why `spec` given to this method can be saved from previous call and remove this
-        copied_spec._work2spec.clear()
 
         k_min = 1
         k_max = 10000
@@ -66,11 +64,13 @@ class AverageBinarySearchResourceOptimizingScheduler:
             # we can keep the deadline if pass minimum resources,
             # so let's go preventing the works going in parallel
             for node in wg.nodes:
-                copied_spec.get_work_spec(node.id).is_independent = True
+                work_spec = copied_spec.get_work_spec(node.id)
+                was_independent = work_spec.is_independent
+                work_spec.is_independent = True
                 new_time = fitness(k_max, copied_spec)
                 if new_time > deadline:
                     # if breaking deadline, revert the mutation
-                    copied_spec.get_work_spec(node.id).is_independent = False
+                    work_spec.is_independent = was_independent
                     try_count += 1
                     if try_count == max_try_count:
                         # if trying to link independent too many times, break the process
-- 
2.43.0


From f93ade8dca1aed210efbbf7f5ff6b08c45b7354f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 42/74] fix: planning to a deadline should try the largest
 teams before missing the deadline

---
 sampo/scheduler/resources_in_time/average_binary_search.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sampo/scheduler/resources_in_time/average_binary_search.py b/sampo/scheduler/resources_in_time/average_binary_search.py
index 996f64d..d579680 100644
--- a/sampo/scheduler/resources_in_time/average_binary_search.py
+++ b/sampo/scheduler/resources_in_time/average_binary_search.py
@@ -103,4 +103,7 @@ class AverageBinarySearchResourceOptimizingScheduler:
 
             if best_left_fit < Time.inf():
                 return call_scheduler(best_left_m, copied_spec)
+            # the search comes near k_min, where works get all the resources they can use, but never tries it
+            if fitness(k_min, copied_spec) - deadline <= best_right_fit:
+                best_right_m = k_min
             return call_scheduler(best_right_m, copied_spec)
-- 
2.43.0


From 68afd145df21192d3b9ece6f7fc78e5cf706f9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 43/74] fix: zones should have the required status during the
 whole work

---
 sampo/scheduler/timeline/zone_timeline.py | 288 +++++++---------------
 1 file changed, 85 insertions(+), 203 deletions(-)

diff --git a/sampo/scheduler/timeline/zone_timeline.py b/sampo/scheduler/timeline/zone_timeline.py
index 50cf0f9..834d1a0 100644
--- a/sampo/scheduler/timeline/zone_timeline.py
+++ b/sampo/scheduler/timeline/zone_timeline.py
@@ -1,36 +1,35 @@
 from collections import deque
-
-from sortedcontainers import SortedList
+from dataclasses import dataclass
 
 from sampo.schemas.requirements import ZoneReq
 from sampo.schemas.time import Time
-from sampo.schemas.types import EventType, ScheduleEvent
 from sampo.schemas.zones import ZoneConfiguration, Zone, ZoneTransition
 from sampo.utilities.collections_util import build_index
 
 
-class ZoneTimeline:
-
-    def __init__(self, config: ZoneConfiguration):
-        def event_cmp(event: ScheduleEvent | Time | tuple[Time, int, int]) -> tuple[Time, int, int]:
-            if isinstance(event, ScheduleEvent):
-                if event.event_type is EventType.INITIAL:
-                    return Time(-1), -1, event.event_type.priority
-
-                return event.time, event.seq_id, event.event_type.priority
+@dataclass
+class ZonePeriod:
+    """
+    Period during which a zone keeps its status
 
-            if isinstance(event, Time):
-                # instances of Time must be greater than almost all ScheduleEvents with same time point
-                return event, Time.inf().value, 2
+    :param status: the status
+    :param change_start: when the change to this status begins
+    :param start: when the change is finished, so works can be performed
+    :param busy_until: when the last of works scheduled in this period finishes
+    """
+    status: int
+    change_start: Time
+    start: Time
+    busy_until: Time
 
-            if isinstance(event, tuple):
-                return event
 
-            raise ValueError(f'Incorrect type of value: {type(event)}')
+class ZoneTimeline:
 
-        self._timeline = {zone: SortedList([ScheduleEvent(-1, EventType.INITIAL, Time(0), None, status)],
-                                           key=event_cmp)
-                          for zone, status in config.start_statuses.items()}
+    def __init__(self, config: ZoneConfiguration):
+        # the periods of each zone go one after another, the last one is not limited;
+        # new periods are added only to the end, so changes of status that are already scheduled stay correct
+        self._timeline: dict[str, list[ZonePeriod]] = {zone: [ZonePeriod(status, Time(0), Time(0), Time(0))]
+                                                       for zone, status in config.start_statuses.items()}
         self._config = config
 
     def find_min_start_time(self, zones: list[ZoneReq], parent_time: Time, exec_time: Time) -> Time:
@@ -77,198 +76,95 @@ class ZoneTimeline:
                 scheduled_wreqs.append(wreq)
                 start = max(start, found_start)
 
-        # This should be uncommented when there are problems with zone scheduling correctness
-        # for w in zones:
-        #     self._validate(start, exec_time, self._timeline[w.kind], w.required_status)
-
         return start
 
     def _match_status(self, target: int, match: int) -> bool:
         return self._config.statuses.match_status(target, match)
 
-    def _validate(self, start_time: Time, exec_time: Time, state: SortedList[ScheduleEvent], required_status: int):
-        # === THE INNER VALIDATION ===
+    def _change_cost(self, period: ZonePeriod, required_status: int) -> int:
+        return self._config.change_cost(period.status, required_status)
 
-        start_idx = state.bisect_right(start_time)
-        end_idx = state.bisect_right(start_time + exec_time)
-        start_status = state[start_idx - 1].available_workers_count
-
-        # updating all events in between the start and the end of our current task
-        for event in state[start_idx: end_idx]:
-            assert self._config.statuses.match_status(event.available_workers_count, required_status)
-
-        assert state[start_idx - 1].event_type == EventType.END \
-               or (state[start_idx - 1].event_type == EventType.START
-                   and self._config.statuses.match_status(start_status, required_status)) \
-               or state[start_idx - 1].event_type == EventType.INITIAL, \
-            f'{state[start_idx - 1].time} {state[start_idx - 1].event_type} {required_status} {start_status}'
-
-        # === END OF INNER VALIDATION ===
+    def _find_period(self,
+                     state: list[ZonePeriod],
+                     start_time: Time,
+                     exec_time: Time,
+                     required_status: int) -> ZonePeriod | None:
+        """
+        Searches for the earliest period with matching status where work can be performed not earlier than `start_time`
+        """
+        for period, next_period in zip(state, state[1:] + [None]):
+            if self._match_status(period.status, required_status) \
+                    and (next_period is None
+                         or max(start_time, period.start) + exec_time <= next_period.change_start):
+                return period
+        return None
 
     def _find_earliest_time_slot(self,
-                                 state: SortedList[ScheduleEvent],
+                                 state: list[ZonePeriod],
                                  parent_time: Time,
                                  exec_time: Time,
                                  required_status: int) -> Time:
         """
-        Searches for the earliest time starting from start_time, when a time slot
-        of exec_time is available, when required_worker_count of resources is available
+        Searches for the earliest time starting from `parent_time` when the zone can have `required_status`
+        during the `exec_time`
 
-        :param state: stores Timeline for the certain resource
+        :param state: stores the periods of the certain zone
         :param parent_time: the minimum start time starting from the end of the parent task
         :param exec_time: execution time of work
         :param required_status: requirements status of zone
         :return: the earliest start time
         """
-        current_start_time = parent_time
-        current_start_idx = state.bisect_right(current_start_time) - 1
+        if required_status == 0:
+            # status is not stated, so work doesn't depend on the zone
+            return parent_time
 
-        # the condition means we have reached the end of schedule for this contractor subject to specialization (wreq)
-        # as long as we assured that this contractor has enough capacity at all to handle the task
-        # we can stop and put the task at the very end
-        i = 0
-        while len(state[current_start_idx:]) > 0:
-            if i > 0 and i % 50 == 0:
-                print(f'Warning! Probably cycle in looking for earliest time slot: {i} iteration')
-                print(f'Current start time: {current_start_time}, current start idx: {current_start_idx}')
-            i += 1
+        period = self._find_period(state, parent_time, exec_time, required_status)
+        if period is not None:
+            return max(parent_time, period.start)
 
-            current_start_status = state[current_start_idx].available_workers_count
-            end_idx = state.bisect_right(current_start_time + exec_time)
-
-            if not self._match_status(current_start_status, required_status):
-                if current_start_idx == len(state) - 1:
-                    current_start_time += max(0, self._config.time_costs[current_start_status, required_status]
-                                              - (current_start_time - state[-1].time))
-                    break  # if we are in the very end, break
-
-                # if we are inside the interval with wrong status
-                # we should go right and search the better begin
-                if state[current_start_idx].event_type == EventType.START \
-                        and not self._match_status(current_start_status, required_status):
-                    current_start_idx += 1
-                    current_start_time = state[current_start_idx].time
-                    continue
-
-                # here we are outside the all intervals or inside the interval with right status
-                # if we are outside intervals, we can be in right or wrong status, so let's check it
-                # else we are inside the interval with right status so let
-
-                if self._is_inside_interval(state, current_start_idx):
-                    if not self._match_status(current_start_status, required_status):
-                        # we are inside the interval with wrong status, so we can't change it, go next
-                        current_start_idx += 1
-                        current_start_time = state[current_start_idx].time
-                        continue
-                else:
-                    # we are outside the interval, should change status
-                    # check that we can do it
-                    current_start_time += self._config.time_costs[current_start_status, required_status]
-                    end_idx = state.bisect_right(current_start_time + exec_time)
-
-            # here we are guaranteed that current_start_time is in right status
-            # so go right and check matching statuses
-            # this step performed like in MomentumTimeline
-            not_compatible_status_found = False
-            for idx in range(end_idx - 1, current_start_idx - 1, -1):
-                if not self._match_status(state[idx].available_workers_count, required_status):
-                    # we're trying to find a new slot that would start with
-                    # either the last index passing the quantity check
-                    # or the index after the execution interval
-                    # we need max here to process a corner case when the problem arises
-                    # on current_start_idx - 1
-                    # without max it would get into infinite cycle
-                    current_start_idx = max(idx, current_start_idx) + 1
-                    not_compatible_status_found = True
-                    break
-
-            if not not_compatible_status_found:
-                break
-
-            if current_start_idx >= len(state):
-                # This should be uncommented when there are problems with zone scheduling correctness
-
-                # cur_cpkt = state[-1]
-                # if cur_cpkt.time == current_start_time and not self._match_status(cur_cpkt.available_workers_count,
-                #                                                                   required_status):
-                #     # print('Problem!')
-                #     current_start_time = max(parent_time, state[-1].time + 1)
-                current_start_time = max(parent_time, state[-1].time + 1)
-                break
-
-            current_start_time = state[current_start_idx].time
-
-        # This should be uncommented when there are problems with zone scheduling correctness
-        self._validate(current_start_time, exec_time, state, required_status)
-
-        return current_start_time
-
-    # noinspection PyMethodMayBeStatic
-    def _is_inside_interval(self, state: SortedList[ScheduleEvent], idx: int) -> bool:
-        # TODO Make better algorithms to check that we can change status in point `start_time - change_cost`
-        starts_count = 0
-        ends_count = 0
-        # checking from end because it's more realistic to call this function at the almost end of timeline
-        for cpkt in state[idx:]:
-            if cpkt.event_type == EventType.START:
-                starts_count += 1
-            else:
-                ends_count += 1
-        # we are inside the interval with incompatible status, break
-        return starts_count == ends_count
+        # status should be changed after all the works that are already scheduled in this zone
+        return max(parent_time, state[-1].busy_until + self._change_cost(state[-1], required_status))
 
     def can_schedule_at_the_moment(self, zones: list[ZoneReq], start_time: Time, exec_time: Time):
-        for zone in zones:
-            state = self._timeline[zone.kind]
-
-            start_idx = state.bisect_right(start_time)
-            end_idx = state.bisect_right(start_time + exec_time)
-            start_status = state[start_idx - 1].available_workers_count
+        return all(self._find_earliest_time_slot(self._timeline[zone.kind], start_time, exec_time,
+                                                 zone.required_status) == start_time
+                   for zone in zones)
 
-            if not self._match_status(start_status, zone.required_status):
-                # starting status don't match, trying to change status
-                change_cost = self._config.time_costs[start_status, zone.required_status]
-                new_start_idx = state.bisect_right(start_time - change_cost)
-                if new_start_idx != start_idx:
-                    # we have incompatible status inside our interval, break
-                    return False
+    def _set_status(self, zone: Zone, start_time: Time, exec_time: Time) -> list[ZoneTransition]:
+        """
+        Occupies zone with given status, changes the status by the `start_time` if it is necessary
+        """
+        state = self._timeline[zone.name]
 
-                if not self._is_inside_interval(state, start_idx):
-                    return False
+        assert self._find_earliest_time_slot(state, start_time, exec_time, zone.status) == start_time, \
+            f'{start_time} {exec_time} {zone} {state}'
 
-            # checking all events in between the start and the end of our current task
-            for event in state[start_idx: end_idx]:
-                if not self._match_status(event.available_workers_count, zone.required_status):
-                    return False
+        if zone.status == 0:
+            return []
 
-        return True
+        period = self._find_period(state, start_time, exec_time, zone.status)
+        if period is not None:
+            period.busy_until = max(period.busy_until, start_time + exec_time)
+            return []
 
-    def update_timeline(self, index: int, zones: list[Zone], start_time: Time, exec_time: Time) -> list[ZoneTransition]:
-        sworks = []
+        return [self._change_status(zone, start_time, exec_time)]
 
-        for zone in zones:
-            state = self._timeline[zone.name]
-            start_idx = state.bisect_right(start_time)
-            start_status = state[start_idx - 1].available_workers_count
-
-            # This should be uncommented when there are problems with zone scheduling correctness
-            self._validate(start_time, exec_time, state, zone.status)
-
-            change_cost = self._config.time_costs[start_status, zone.status] \
-                if not self._config.statuses.match_status(start_status, zone.status) \
-                else 0
-
-            state.add(ScheduleEvent(index, EventType.START, start_time - change_cost, None, zone.status))
-            state.add(ScheduleEvent(index, EventType.END, start_time - change_cost + exec_time, None, zone.status))
+    def _change_status(self, zone: Zone, start_time: Time, exec_time: Time) -> ZoneTransition:
+        """
+        Changes status of zone after all the previous periods
+        """
+        state = self._timeline[zone.name]
+        change_start = start_time - self._change_cost(state[-1], zone.status)
+        transition = ZoneTransition(name=zone.name,
+                                    from_status=state[-1].status,
+                                    to_status=zone.status,
+                                    start_time=change_start,
+                                    end_time=start_time)
+        state.append(ZonePeriod(zone.status, change_start, start_time, start_time + exec_time))
+        return transition
 
-            if start_status != zone.status and zone.status != 0:
-                # if we need to change status, record it
-                sworks.append(ZoneTransition(name=zone.name,
-                                             from_status=start_status,
-                                             to_status=zone.status,
-                                             start_time=start_time - change_cost,
-                                             end_time=start_time))
-        return sworks
+    def update_timeline(self, index: int, zones: list[Zone], start_time: Time, exec_time: Time) -> list[ZoneTransition]:
+        return [transition for zone in zones for transition in self._set_status(zone, start_time, exec_time)]
 
     def append_statuses(self, zones: list[Zone]) -> tuple[Time, list[ZoneTransition]]:
         global_finish_time = Time(0)
@@ -276,27 +172,13 @@ class ZoneTimeline:
 
         for zone in zones:
             state = self._timeline[zone.name]
-            latest_time = state[-1].time + 1
-            latest_status = state[-1].available_workers_time
-            change_cost = self._config.time_costs[latest_status, zone.status] \
-                if not self._config.statuses.match_status(latest_status, zone.status) \
-                else 0
-            finish_time = latest_time + change_cost
-
-            state.add(ScheduleEvent(Time.inf().value, EventType.START, latest_time, None, zone.status))
-            state.add(ScheduleEvent(Time.inf().value, EventType.END, finish_time, None, zone.status))
-
-            if latest_status != zone.status and zone.status != 0:
-                # if we need to change status, record it
-                sworks.append(ZoneTransition(name=zone.name,
-                                             from_status=latest_status,
-                                             to_status=zone.status,
-                                             start_time=latest_time - change_cost,
-                                             end_time=latest_time))
-
+            finish_time = state[-1].busy_until
+            if zone.status != 0 and not self._match_status(state[-1].status, zone.status):
+                finish_time += self._change_cost(state[-1], zone.status)
+                sworks.append(self._change_status(zone, finish_time, Time(0)))
             global_finish_time = max(global_finish_time, finish_time)
 
         return global_finish_time, sworks
 
     def finish_statuses(self) -> tuple[Time, list[ZoneTransition]]:
-        return self.append_statuses([Zone(*v) for v in self._config.end_statuses])
+        return self.append_statuses([Zone(*v) for v in self._config.end_statuses.items()])
-- 
2.43.0


From f05746b1fbcd618eb5a163a778b997d1efc110f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 44/74] fix: zone should be found for the given execution time
 of work

---
 sampo/scheduler/timeline/just_in_time_timeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index 60d70a9..5f1e8ae 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -98,7 +98,8 @@ class JustInTimeTimeline(Timeline):
                 continue
 
             zone_time = self.zone_timeline.find_min_start_time(node.work_unit.zone_reqs, cur_start_time,
-                                                               exec_time)
+                                                               exec_time if spec.assigned_time is None
+                                                               else spec.assigned_time)
             if zone_time > cur_start_time:
                 cur_start_time = zone_time
             else:
-- 
2.43.0


From 87ccfc036297450eb3cf17d0735da97f7f72ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 45/74] fix: momentum timeline should return finish time of
 scheduled work

---
 sampo/scheduler/timeline/momentum_timeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index deac3b2..fb9cfc6 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -417,8 +417,8 @@ class MomentumTimeline(Timeline):
                                                      assigned_parent_time, work_estimator)
 
         # TODO Decide how to deal with exec_times(maybe we should remove using pre-computed exec_times)
-        self._schedule_with_inseparables(node, node2swork, inseparable_chain, spec,
-                                         workers, contractor, start_time, exec_times)
+        return self._schedule_with_inseparables(node, node2swork, inseparable_chain, spec,
+                                                workers, contractor, start_time, exec_times)
 
     def _schedule_with_inseparables(self,
                                     node: GraphNode,
@@ -463,6 +463,7 @@ class MomentumTimeline(Timeline):
         zones = [zone_req.to_zone() for zone_req in node.work_unit.zone_reqs]
         node2swork[node].zones_pre = self.zone_timeline.update_timeline(len(node2swork), zones, start_time,
                                                                         curr_time - start_time)
+        return curr_time
 
     def _validate(self,
                   finish_time: Time,
-- 
2.43.0


From 63f738227a8755ff7e8b39de0676438fe6e47721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 46/74] fix: serial decoding of chromosomes should set the
 final statuses of zones

---
 sampo/scheduler/genetic/converter.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index 41e7113..2e809d3 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -295,9 +295,16 @@ def serial_schedule_generation_scheme(chromosome: ChromosomeType,
         if order_index == 0:  # we are scheduling the work `start of the project`
             st = assigned_parent_time  # this work should always have st = 0, so we just re-assign it
 
+        if order_index == len(works_order) - 1:  # we are scheduling the work `end of the project`
+            finish_time, finalizing_zones = timeline.zone_timeline.finish_statuses()
+            st = max(st, finish_time)
+
         # finish using time spec
         ft = timeline.schedule(node, node2swork, worker_team, contractor, work_spec,
                                st, work_spec.assigned_time, assigned_parent_time, work_estimator)
+        if order_index == len(works_order) - 1:  # we are scheduling the work `end of the project`
+            node2swork[node].zones_pre = finalizing_zones
+
         # process zones
         zone_reqs = [ZoneReq(index2zone[i], zone_status) for i, zone_status in enumerate(zone_statuses[work_index])]
         zone_start_time = timeline.zone_timeline.find_min_start_time(zone_reqs, ft, 0)
-- 
2.43.0


From 01137b81e1180cea3a0d647e9bdac1b41a6093e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 47/74] fix: routes should use the shortest of parallel roads

---
 sampo/schemas/landscape.py       | 13 ++++++++-----
 sampo/schemas/landscape_graph.py |  3 ++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/sampo/schemas/landscape.py b/sampo/schemas/landscape.py
index ca362e4..6a761b1 100644
--- a/sampo/schemas/landscape.py
+++ b/sampo/schemas/landscape.py
@@ -141,7 +141,9 @@ class LandscapeConfiguration:
         return [self.road_mx[path[v - 1]][path[v]] for v in range(len(path) - 1, 0, -1)]
 
     def _dijkstra(self, node_ind: int, distances: list[float], path_mx: np.ndarray, roads_available_set: set[str]) \
-            -> np.ndarray:
+            -> tuple[np.ndarray, dict[int, str]]:
+        # the road by which the way goes from the node towards the `node_ind`
+        node2road: dict[int, str] = {}
         prior_queue = [(.0, node_ind)]
         distances[node_ind] = 0
 
@@ -159,8 +161,9 @@ class LandscapeConfiguration:
                 if d < distances[finish_ind]:
                     distances[finish_ind] = d
                     path_mx[node_ind][finish_ind] = v
+                    node2road[finish_ind] = road.id
                     heapq.heappush(prior_queue, (d, finish_ind))
-        return path_mx
+        return path_mx, node2road
 
     def construct_route(self, from_node: LandGraphNode, to_node: LandGraphNode,
                         roads_available: list[Road]) -> list[str]:
@@ -183,7 +186,7 @@ class LandscapeConfiguration:
 
         from_ind = self._node2ind[from_node]
         to_ind = self._node2ind[to_node]
-        path_mx = self._dijkstra(to_ind, distances, path_mx, roads_available_set)
+        path_mx, node2road = self._dijkstra(to_ind, distances, path_mx, roads_available_set)
 
         if path_mx[to_ind][from_ind] == -1:
             return []
@@ -195,7 +198,7 @@ class LandscapeConfiguration:
             fr = path_mx[to_ind][fr]
         path.append(to_ind)
 
-        return [self.road_mx[path[v]][path[v + 1]] for v in range(len(path) - 1)]
+        return [node2road[v] for v in path[:-1]]
 
     @cached_property
     def holders(self) -> list[ResourceHolder]:
@@ -249,7 +252,7 @@ class LandscapeConfiguration:
                 elif dist_mx[v][u] != np.inf:
                     path_mx[v][u] = v
                     for road in self.lg.nodes[v].roads:
-                        if self.lg.node2ind[road.finish] == u:
+                        if self.lg.node2ind[road.finish] == u and road.weight == dist_mx[v][u]:
                             road_mx[v][u] = road.id
                 else:
                     path_mx[v][u] = -1
diff --git a/sampo/schemas/landscape_graph.py b/sampo/schemas/landscape_graph.py
index 828be0e..23cc0fa 100644
--- a/sampo/schemas/landscape_graph.py
+++ b/sampo/schemas/landscape_graph.py
@@ -140,6 +140,7 @@ class LandGraph:
         for v, i in node2ind.items():
             for child in v.roads:
                 c_i = node2ind[child.finish]
-                adj_mtrx[i, c_i] = child.weight
+                # the shortest one of the roads between two nodes
+                adj_mtrx[i, c_i] = min(adj_mtrx[i, c_i], child.weight)
 
         return adj_mtrx, node2ind, id2ind
-- 
2.43.0


From e39a3b5f9687a23f6040563b0396ff99a35f2b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 48/74] fix: land graph nodes should have own ids and could be
 created with neighbours

---
 sampo/schemas/landscape_graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/schemas/landscape_graph.py b/sampo/schemas/landscape_graph.py
index 23cc0fa..6509718 100644
--- a/sampo/schemas/landscape_graph.py
+++ b/sampo/schemas/landscape_graph.py
@@ -38,7 +38,7 @@ class ResourceStorageUnit:
 
 class LandGraphNode:
     def __init__(self,
-                 id: str = str(uuid.uuid4()),
+                 id: str | None = None,
                  name: str = 'platform',
                  resource_storage_unit: ResourceStorageUnit = ResourceStorageUnit(),
                  neighbour_nodes: list[tuple['LandGraphNode', float, int]] | None = None,
@@ -50,11 +50,11 @@ class LandGraphNode:
         :param resource_storage_unit: object that saves info about the resources in the current node
         (in other words platform)
         """
-        self.id = id
+        self.id = id if id is not None else str(uuid.uuid4())
         self.name = name
+        self._roads: list[LandEdge] = []
         if not (neighbour_nodes is None):
             self.add_neighbours(neighbour_nodes)
-        self._roads: list[LandEdge] = []
         self.nodes: list['GraphNode'] = []
         if works is not None:
             self.nodes.extend(works) if isinstance(works, list) else self.nodes.append(works)
-- 
2.43.0


From 8832a9c8478c53e098f0c03db8f6aa2335a83800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:40 +0000
Subject: [PATCH 49/74] fix: materials should not be taken from the platform
 before the last scheduled usage

---
 sampo/scheduler/timeline/platform_timeline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/platform_timeline.py b/sampo/scheduler/timeline/platform_timeline.py
index 8a94fa8..7f7619e 100644
--- a/sampo/scheduler/timeline/platform_timeline.py
+++ b/sampo/scheduler/timeline/platform_timeline.py
@@ -62,7 +62,8 @@ class PlatformTimeline:
             start = platform_state[mat.name].bisect_right(start_time)
             finish = len(platform_state[mat.name])
 
-            if finish - start > 1:
+            # materials are counted forward only, so nothing should be taken before the last scheduled usage
+            if finish - start > 0:
                 return False
 
         return True
-- 
2.43.0


From ae2f99f13e53e15ea0cfb734c4bb5778f74942c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:14 +0000
Subject: [PATCH 50/74] fix: delivery should book the vehicles of the chosen
 depot when both vehicles and roads are free

---
 .../timeline/hybrid_supply_timeline.py        | 37 +++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index 60be8b5..ddb4236 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -217,20 +217,25 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                 depot_mat_start_time = start_time
 
                 vehicle_count_need = self._get_necessary_vehicles_amount(depot, materials)
-                selected_vehicles = depot.vehicles[:vehicle_count_need]
-
-                # get information about route: start time, deliveries,
-                # time of vehicles routing to platform and back separately
-                route_start_time, deliveries, exec_ahead_time, exec_return_time = \
-                    self._get_route_with_additional(depot.node, platform, selected_vehicles, depot_mat_start_time)
-
-                # get the minimum start time that all required vehicles are available
-                depot_vehicle_start_time = self._find_earliest_start_time(self._timeline[depot.id]['vehicles'],
-                                                                          vehicle_count_need,
-                                                                          route_start_time,
-                                                                          exec_return_time + exec_ahead_time)
-
-                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries
+                depot_vehicles = depot.vehicles[:vehicle_count_need]
+
+                while True:
+                    # get information about route: start time, deliveries,
+                    # time of vehicles routing to platform and back separately
+                    route_start_time, deliveries, exec_ahead_time, exec_return_time = \
+                        self._get_route_with_additional(depot.node, platform, depot_vehicles, depot_mat_start_time)
+
+                    # get the minimum start time that all required vehicles are available
+                    depot_vehicle_start_time = self._find_earliest_start_time(self._timeline[depot.id]['vehicles'],
+                                                                              vehicle_count_need,
+                                                                              route_start_time,
+                                                                              exec_return_time + exec_ahead_time)
+                    if depot_vehicle_start_time == route_start_time:
+                        break
+                    # vehicles can start only later, so roads should be available at that time
+                    depot_mat_start_time = depot_vehicle_start_time
+
+                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, depot_vehicles, deliveries
 
         delivery = MaterialDelivery(node.id)
 
@@ -264,7 +269,8 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
             start_delivery_time += 1
 
             # iterate over depots and find the earliest time when the depot could supply resources
-            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries in get_finish_time(start_delivery_time):
+            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, depot_vehicles, deliveries \
+                    in get_finish_time(start_delivery_time):
                 # choose the current depot if only it could supply resources earlier than the previous one
                 if finish_delivery_time > deadline and depot_vehicle_start_time + exec_ahead_time < finish_delivery_time \
                         or finish_delivery_time < deadline:
@@ -272,6 +278,7 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                     min_depot_time = depot_vehicle_start_time
                     finish_delivery_time = depot_vehicle_start_time + exec_ahead_time
                     selected_depot = depot
+                    selected_vehicles = depot_vehicles
 
                     road_deliveries = deliveries
 
-- 
2.43.0


From 359c75196a15413de5304f7a40369762a2da782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:14 +0000
Subject: [PATCH 51/74] fix: platform should count all the materials that the
 work consumes

---
 sampo/scheduler/timeline/hybrid_supply_timeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index ddb4236..d024024 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -302,8 +302,9 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                 update_timeline_info[road_id].append(res_info)
 
         # update the platform timeline
-        node_mat_req = {mat.name: mat.count for mat in node.work_unit.need_materials()}
-        update_mat_req_info = [(mat.name, node_mat_req[mat.name] - mat.count, finish_delivery_time) for mat in materials]
+        delivered = {mat.name: mat.count for mat in materials}
+        update_mat_req_info = [(mat.name, mat.count - delivered.get(mat.name, 0), finish_delivery_time)
+                               for mat in node.work_unit.need_materials()]
         self._platform_timeline.update_timeline(platform.id, update_mat_req_info)
 
         # update the supply timeline
-- 
2.43.0


From 0fc59aa4a2f76ab0d2334b67f228fdb54b9b8f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:14 +0000
Subject: [PATCH 52/74] fix: independent works should wait for their materials
 and zones in the just-in-time timeline

---
 sampo/scheduler/timeline/just_in_time_timeline.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index 5f1e8ae..368b1cd 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -158,7 +158,6 @@ class JustInTimeTimeline(Timeline):
                 last_cpkt_time, _ = worker_timeline[0]
                 if last_cpkt_time > start_time:
                     return False
-            return True
         else:
             max_agent_time = Time(0)
             for worker in worker_team:
@@ -178,13 +177,14 @@ class JustInTimeTimeline(Timeline):
             if not max_agent_time <= start_time:
                 return False
 
-            if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
-                                                                      node.work_unit.need_materials()):
-                return False
-            if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
-                return False
+        # independent works don't share workers, but materials and zones concern them as well
+        if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
+                                                                  node.work_unit.need_materials()):
+            return False
+        if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
+            return False
 
-            return True
+        return True
 
     def update_timeline(self,
                         finish_time: Time,
-- 
2.43.0


From 1349c5d241ce79117cc433d32dfa8e6f9d6376af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:14 +0000
Subject: [PATCH 53/74] fix: inseparable chains should wait for the materials
 of all their works

---
 .../timeline/hybrid_supply_timeline.py        | 35 +++++++++++++++++++
 sampo/scheduler/timeline/momentum_timeline.py | 15 ++++++++
 2 files changed, 50 insertions(+)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index d024024..56bb586 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -1,4 +1,5 @@
 import math
+from copy import copy
 from collections import defaultdict
 
 from sortedcontainers import SortedList
@@ -14,6 +15,12 @@ from sampo.schemas.time import Time
 from sampo.schemas.types import ScheduleEvent, EventType
 
 
+def copy_timeline(timeline: dict[str, dict[str, SortedList]]) -> dict[str, dict[str, SortedList]]:
+    return {holder_id: {res_name: SortedList((copy(event) for event in events), key=events.key)
+                        for res_name, events in state.items()}
+            for holder_id, state in timeline.items()}
+
+
 class HybridSupplyTimeline(BaseSupplyTimeline):
     """
     Material Timeline that implements the hybrid approach of resource supply -
@@ -100,6 +107,34 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
         # time = min(time, self._find_min_delivery_time_after_work_start(node, start_time, mat_request))
         return time
 
+    def add_delivery_lags(self, inseparable_chain: list[GraphNode], start_time: Time,
+                          exec_times: dict[GraphNode, tuple[Time, Time]]) -> dict[GraphNode, tuple[Time, Time]]:
+        """
+        Adds to the lags of the chain's works the time they wait for their materials if the chain starts at the
+        `start_time`. Deliveries of the previous works of the chain matter, so they are booked on a copy of the timeline
+        """
+        if not any(node.work_unit.need_materials() for node in inseparable_chain
+                   if node is not inseparable_chain[0] or exec_times[node][0] > 0):
+            return exec_times
+
+        trial = copy(self)
+        trial._timeline = copy_timeline(self._timeline)
+        trial._platform_timeline = copy(self._platform_timeline)
+        trial._platform_timeline._timeline = copy_timeline(self._platform_timeline._timeline)
+
+        result = {}
+        finish_time = start_time
+        for node in inseparable_chain:
+            lag, exec_time = exec_times[node]
+            work_start = finish_time + lag
+            materials = node.work_unit.need_materials()
+            work_start = max(work_start, trial.find_min_material_time(node, work_start, materials))
+            _, work_start = trial.deliver_resources(node, work_start, materials)
+            result[node] = work_start - finish_time, exec_time
+            finish_time = work_start + exec_time
+
+        return result
+
     def _find_min_delivery_time_after_work_start(self, node: GraphNode, start_time: Time,
                                                  materials: list[Material]) -> Time:
         deadline = start_time
diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index fb9cfc6..740d1db 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -140,8 +140,11 @@ class MomentumTimeline(Timeline):
             max_parent_time = max(max_parent_time, max_material_time, max_zone_time)
             return max_parent_time, max_parent_time, exec_times
 
+        chain_exec_times = exec_times
         if assigned_start_time is not None:
             st = assigned_start_time
+            exec_times = self._material_timeline.add_delivery_lags(inseparable_chain, st, chain_exec_times)
+            exec_time = self._get_chain_exec_time(exec_times)
         else:
             # we can't just use max() of all times we found from different constraints
             # because start time shifting can corrupt time slots we found from every constraint
@@ -159,6 +162,14 @@ class MomentumTimeline(Timeline):
                     cur_start_time = material_time
                     continue
 
+                # the next works of the chain may have to wait for their materials, so the slot should include it
+                exec_times = self._material_timeline.add_delivery_lags(inseparable_chain, cur_start_time,
+                                                                       chain_exec_times)
+                chain_exec_time = self._get_chain_exec_time(exec_times)
+                if chain_exec_time != exec_time:
+                    exec_time = chain_exec_time
+                    continue
+
                 zone_time = self.zone_timeline.find_min_start_time(node.work_unit.zone_reqs, cur_start_time,
                                                                    exec_time)
                 if zone_time > cur_start_time:
@@ -171,6 +182,10 @@ class MomentumTimeline(Timeline):
         self._validate(st + exec_time, exec_time, worker_team)
         return st, st + exec_time, exec_times
 
+    @staticmethod
+    def _get_chain_exec_time(exec_times: dict[GraphNode, tuple[Time, Time]]) -> Time:
+        return sum((lag + time for lag, time in exec_times.values()), start=Time(0))
+
     def _find_min_start_time(self,
                              resource_timeline: dict[str, SortedList[ScheduleEvent]],
                              inseparable_chain: list[GraphNode],
-- 
2.43.0


From e2e7a87fa3232277c0b665a19021ad18e4324ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:14 +0000
Subject: [PATCH 54/74] fix: just-in-time timeline should book zones for the
 whole chain with its lags and deliveries

---
 .../timeline/just_in_time_timeline.py         | 36 +++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index 368b1cd..026c149 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -72,6 +72,7 @@ class JustInTimeTimeline(Timeline):
         inseparable_chain = node.get_inseparable_chain_with_self()
 
         new_finish_time = cur_start_time
+        exec_times: dict[GraphNode, tuple[Time, Time]] = {}  # node: (lag, exec_time)
         for dep_node in inseparable_chain:
             # set start time as finish time of original work
             # set finish time as finish time + working time of current node with identical resources
@@ -84,7 +85,11 @@ class JustInTimeTimeline(Timeline):
             working_time = work_estimator.estimate_time(dep_node.work_unit, worker_team)
             new_finish_time = dep_st + working_time
 
+            exec_times[dep_node] = Time(0), working_time
+
         exec_time = new_finish_time - cur_start_time
+        if spec.assigned_time is not None:
+            exec_times = get_exec_times_from_assigned_time_for_chain(inseparable_chain, spec.assigned_time)
 
         found_earliest_time = False
         while not found_earliest_time:
@@ -97,9 +102,9 @@ class JustInTimeTimeline(Timeline):
                 cur_start_time = material_time
                 continue
 
+            chain_exec_time = self._get_chain_exec_time(inseparable_chain, node2swork, cur_start_time, exec_times)
             zone_time = self.zone_timeline.find_min_start_time(node.work_unit.zone_reqs, cur_start_time,
-                                                               exec_time if spec.assigned_time is None
-                                                               else spec.assigned_time)
+                                                               chain_exec_time)
             if zone_time > cur_start_time:
                 cur_start_time = zone_time
             else:
@@ -110,6 +115,28 @@ class JustInTimeTimeline(Timeline):
         c_ft = c_st + exec_time
         return c_st, c_ft, None
 
+    def _get_chain_exec_time(self,
+                             inseparable_chain: list[GraphNode],
+                             node2swork: dict[GraphNode, ScheduledWork],
+                             start_time: Time,
+                             exec_times: dict[GraphNode, tuple[Time, Time]]) -> Time:
+        """
+        Time from the `start_time` to the finish of the chain, works of the chain wait for the end of lags and
+        for their materials
+        """
+        finish_time = start_time
+        chain_exec_times: dict[GraphNode, tuple[Time, Time]] = {}
+        for dep_node in inseparable_chain:
+            lag, working_time = exec_times[dep_node]
+            dep_st = max([finish_time + lag, dep_node.min_start_time(node2swork)] +
+                         [finish_time + int(edge.lag) for edge in dep_node.edges_to
+                          if edge.start in chain_exec_times])
+            chain_exec_times[dep_node] = dep_st - finish_time, working_time
+            finish_time = dep_st + working_time
+
+        chain_exec_times = self._material_timeline.add_delivery_lags(inseparable_chain, start_time, chain_exec_times)
+        return sum((lag + working_time for lag, working_time in chain_exec_times.values()), start=Time(0))
+
     def _find_min_start_time(self, worker_team: list[Worker], _max_agent_time: Time, spec: WorkSpec):
         max_agent_time = _max_agent_time
         if spec.is_independent:
@@ -181,7 +208,10 @@ class JustInTimeTimeline(Timeline):
         if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
                                                                   node.work_unit.need_materials()):
             return False
-        if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
+        inseparable_chain = node.get_inseparable_chain_with_self()
+        exec_times = get_exec_times_from_assigned_time_for_chain(inseparable_chain, exec_time)
+        chain_exec_time = self._get_chain_exec_time(inseparable_chain, node2swork, start_time, exec_times)
+        if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, chain_exec_time):
             return False
 
         return True
-- 
2.43.0


From 675f64ed606d9b7fbadce04cf5cfd5e4c02ccee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 55/74] fix: parallel backend should start genetic search from
 orders that follow the dependencies

---
 sampo/backend/multiproc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index 691ecd1..e2da645 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -170,7 +170,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                                                                   resource_optimizer=AverageReqResourceOptimizer(k))
                                                   .schedule_with_cache(g_wg, g_contractors, g_spec,
                                                                        landscape=g_landscape))[0]
-                    return schedule, node_order[::-1], g_spec
+                    return schedule, node_order, g_spec
                 except NoSufficientContractorError:
                     return None, None, None
 
@@ -180,7 +180,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                         schedule, _, _, node_order = (scheduler_class(work_estimator=g_work_estimator)
                                                       .schedule_with_cache(g_wg, g_contractors, g_spec,
                                                                            landscape=g_landscape))[0]
-                        return schedule, node_order[::-1], g_spec
+                        return schedule, node_order, g_spec
                     except NoSufficientContractorError:
                         return None, None, None
 
@@ -190,7 +190,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                         (schedule, _, _, node_order), modified_spec = AverageBinarySearchResourceOptimizingScheduler(
                             scheduler_class(work_estimator=g_work_estimator)
                         ).schedule_with_cache(g_wg, g_contractors, g_deadline, g_spec, landscape=g_landscape)
-                        return schedule, node_order[::-1], modified_spec
+                        return schedule, node_order, modified_spec
                     except NoSufficientContractorError:
                         return None, None, None
 
-- 
2.43.0


From 0593fdc85f2d93664fd1633f1bb3b14dd5e8e0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 56/74] fix: random start individuals of the parallel backend
 should follow the spec

---
 sampo/backend/multiproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index e2da645..cdf67b2 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -161,7 +161,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         def mapper(key: str):
             def randomized_init():
                 schedule, _, _, order = RandomizedTopologicalScheduler(g_work_estimator, int(g_rand.random() * 1000000)) \
-                    .schedule_with_cache(g_wg, g_contractors, landscape=g_landscape)[0]
+                    .schedule_with_cache(g_wg, g_contractors, g_spec, landscape=g_landscape)[0]
                 return schedule, order, g_spec
 
             def init_k_schedule(scheduler_class, k) -> tuple[Schedule | None, list[GraphNode] | None, ScheduleSpec | None]:
-- 
2.43.0


From 12dc37b2a50ea5263736bef2d3a9e65d33c78575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 57/74] fix: parallel backend should make the same kinds of
 start individuals as the default one

---
 sampo/backend/multiproc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index cdf67b2..46838ab 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -13,6 +13,7 @@ from sampo.backend.default import DefaultComputationalBackend
 from sampo.scheduler.genetic.operators import Individual
 from sampo.scheduler.genetic.utils import create_toolbox_using_cached_chromosomes, init_chromosomes_f
 from sampo.scheduler.heft import HEFTScheduler, HEFTBetweenScheduler
+from sampo.scheduler.lft import LFTScheduler
 from sampo.scheduler.resource import AverageReqResourceOptimizer
 from sampo.scheduler.resources_in_time import AverageBinarySearchResourceOptimizingScheduler
 from sampo.scheduler.topological.base import RandomizedTopologicalScheduler
@@ -198,6 +199,10 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                 return g_toolbox.schedule_to_chromosome(schedule=schedule, spec=spec, order=priority_list)
 
             match key:
+                case 'lft':
+                    schedule, _, _, node_order = LFTScheduler(work_estimator=g_work_estimator) \
+                        .schedule_with_cache(g_wg, g_contractors, g_spec, landscape=g_landscape)[0]
+                    return convert(schedule, node_order, g_spec)
                 case 'heft_end':
                     return convert(*init_schedule(HEFTScheduler))
                 case 'heft_between':
@@ -213,7 +218,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                 case 'randomized':
                     return convert(*randomized_init())
 
-        weights = self._weights or [2, 2, 1, 1, 1, 1]
+        weights = self._weights or [2, 2, 2, 1, 1, 1, 1]
 
         count_for_specified_types = (size_population // 3) // len(weights)
         count_for_specified_types = count_for_specified_types if count_for_specified_types > 0 else 1
@@ -227,7 +232,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         count_for_topological = count_for_topological if count_for_topological > 0 else 1
         counts += [count_for_topological]
 
-        chromosome_keys = ['heft_end', 'heft_between', '12.5%', '25%', '75%', '87.5%', 'randomized']
+        chromosome_keys = ['lft', 'heft_end', 'heft_between', '12.5%', '25%', '75%', '87.5%', 'randomized']
         chromosome_types = self._rand.sample(chromosome_keys, k=size_population, counts=counts)
 
         chromosomes = self.map(mapper, chromosome_types)
-- 
2.43.0


From 6d82f99b3214c841173d201b85425ea4370afa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:54 +0000
Subject: [PATCH 58/74] fix: heuristic start population of the hybrid search
 should pass the order and the spec

---
 sampo/hybrid/population.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampo/hybrid/population.py b/sampo/hybrid/population.py
index 0c635da..ab202f6 100644
--- a/sampo/hybrid/population.py
+++ b/sampo/hybrid/population.py
@@ -49,6 +49,7 @@ class HeuristicPopulationScheduler(PopulationScheduler):
         toolbox = create_toolbox(wg=wg, contractors=contractors,
                                  spec=spec, assigned_parent_time=assigned_parent_time,
                                  landscape=landscape)
-        return [toolbox.Individual(toolbox.schedule_to_chromosome(schedule=schedule))
+        return [toolbox.Individual(toolbox.schedule_to_chromosome(schedule=schedule, spec=spec, order=node_order))
                 for scheduler in self._schedulers
-                for schedule in scheduler.schedule(wg, contractors, spec, landscape=landscape)]
+                for schedule, _, _, node_order in scheduler.schedule_with_cache(wg, contractors, spec,
+                                                                                landscape=landscape)]
-- 
2.43.0


From 6c30ff073a1817803804ffa30117da8ea85a00fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 59/74] fix: works tables without model_name or granular_name
 should load as documented

---
 sampo/userinput/parser/general_build.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 23fb7bc..d588174 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -171,12 +171,20 @@ def preprocess_graph_df(frame: pd.DataFrame,
         frame['model_name'] = ''
 
     def map_activity(row):
-        model_name_dict = eval(row['model_name'])
+        model_name_dict = eval(row['model_name']) if row['model_name'] else {}
         if 'granular_name' not in model_name_dict:
-            model_name_dict['granular_name'] = name_mapper[row['activity_name']]
+            if name_mapper is not None:
+                model_name_dict['granular_name'] = name_mapper[row['activity_name']]
+            else:
+                model_name_dict['granular_name'] = row['granular_name'] if 'granular_name' in row \
+                    else row['activity_name']
+        if 'measurement' not in model_name_dict and 'measurement' in row:
+            model_name_dict['measurement'] = row['measurement']
         return str(model_name_dict)
 
-    frame['model_name'] = frame[['activity_name', 'model_name']].apply(map_activity, axis=1)
+    frame['model_name'] = frame.apply(map_activity, axis=1)
+    if 'granular_name' not in frame.columns:
+        frame['granular_name'] = [eval(model_name)['granular_name'] for model_name in frame['model_name']]
 
     frame['activity_id'] = frame['activity_id'].astype(str)
     frame['volume'] = [float(x.replace(',', '.')) if isinstance(x, str) else float(x) for x in frame['volume']]
-- 
2.43.0


From 3f6792fe4131111adbd66e5ebf8816db1b001d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 60/74] fix: links to works with ids like '1.1' should not lead
 to work '1'

---
 sampo/userinput/parser/general_build.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index d588174..cbe8908 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -156,10 +156,13 @@ def fix_df_column_with_arrays(column: pd.Series, cast: Callable[[str], Any] | No
 
 def preprocess_graph_df(frame: pd.DataFrame,
                         name_mapper: NameMapper | None = None) -> pd.DataFrame:
+    activity_ids = set(frame['activity_id'].astype(str))
+
     def normalize_if_number(s):
-        return str(int(float(s))) \
-            if s.replace('.', '', 1).isdigit() \
-            else s
+        # ids read from a file with empty cells look like '1.0'; ids that are in the table are kept as they are
+        if s in activity_ids or not s.replace('.', '', 1).isdigit() or not float(s).is_integer():
+            return s
+        return str(int(float(s)))
 
     temp_lst = [math.nan] * frame.shape[0]
 
-- 
2.43.0


From b4c2195630c3edab7cfc23ac14acef31d05c4291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 61/74] fix: links of works tables without types or lags should
 have defaults

---
 sampo/userinput/parser/general_build.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index cbe8908..cd40ccd 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -206,6 +206,14 @@ def preprocess_graph_df(frame: pd.DataFrame,
     for col in ['predecessor_ids', 'connection_types', 'lags', 'counts']:
         frame[col] = frame[col].astype(object)
 
+    # links without given types or lags are plain finish-start ones
+    for _, row in frame.iterrows():
+        links_count = len(row['predecessor_ids'])
+        if row['connection_types'] == [EdgeType.FinishStart]:
+            frame.at[_, 'connection_types'] = [EdgeType.FinishStart] * links_count
+        if row['lags'] == [NONE_ELEM]:
+            frame.at[_, 'lags'] = [0.0] * links_count
+
     for _, row in frame.iterrows():
         frame.at[_, 'counts'] = [np.iinfo(np.int64).max] * len(frame.at[_, 'lags'])
 
-- 
2.43.0


From ea482e2d8b7e865fcff0b484caf70904908afdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 62/74] fix: works loaded from a table should keep their model
 name

---
 sampo/userinput/parser/csv_parser.py    | 2 +-
 sampo/userinput/parser/general_build.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index aae71e4..2924c66 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -124,7 +124,7 @@ class CSVParser:
             works_info.activity_name = works_info.activity_name.apply(lambda name: name_mapper[name])
 
         resources = [dict((worker_req.kind, int(worker_req.volume))
-                          for worker_req in work_resource_estimator.find_work_resources(model_name=w[0],
+                          for worker_req in work_resource_estimator.find_work_resources(model_name=eval(w[0]),
                                                                                         work_volume=float(w[1])))
                      for w in works_info.loc[:, ['model_name', 'volume']].to_numpy()]
 
diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index cd40ccd..c928ec9 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -283,7 +283,7 @@ def build_work_graph(frame: pd.DataFrame, resource_names: list[str], work_estima
         group = row['group'] if 'group' in frame.columns else 'main project'
         priority = row['priority'] if 'priority' in frame.columns else 1
 
-        work_unit = WorkUnit(row['activity_id'], row['model_name'], reqs, group=group,
+        work_unit = WorkUnit(row['activity_id'], eval(row['model_name']), reqs, group=group,
                              description=description, volume=row['volume'],
                              is_service_unit=is_service_unit, display_name=row['activity_name_original'],
                              zone_reqs=zone_reqs, priority=priority)
-- 
2.43.0


From d4859fe4aae008fa0b1722d7794f227e409770f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 63/74] fix: history without granular_name should be grouped by
 its work names

---
 sampo/userinput/parser/history.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sampo/userinput/parser/history.py b/sampo/userinput/parser/history.py
index c1c8cec..7520192 100644
--- a/sampo/userinput/parser/history.py
+++ b/sampo/userinput/parser/history.py
@@ -107,8 +107,6 @@ def get_all_seq_statistic(history_data: pd.DataFrame,
                           graph_df: pd.DataFrame,
                           use_model_name: bool = False,
                           mapper: NameMapper | None = None):
-    df_grouped = history_data.copy()
-
     if use_model_name:
         column_name = 'model_name'
     else:
@@ -116,7 +114,7 @@ def get_all_seq_statistic(history_data: pd.DataFrame,
             history_data['granular_name'] = [activity_name for activity_name in history_data['work_name']]
         column_name = 'granular_name'
 
-    df_grouped = df_grouped.groupby('upper_works')[column_name].apply(list).reset_index(name="Works")
+    df_grouped = history_data.groupby('upper_works')[column_name].apply(list).reset_index(name="Works")
     works1, works2 = get_all_connections(graph_df, use_model_name, mapper)
 
     # Declare structure with updated connections
-- 
2.43.0


From de7a461b0d65bbeffa7fe302f47881fead6d227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 64/74] fix: kinds and lags from history should be given to the
 links they belong to

---
 sampo/userinput/parser/history.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sampo/userinput/parser/history.py b/sampo/userinput/parser/history.py
index 7520192..62d8dd7 100644
--- a/sampo/userinput/parser/history.py
+++ b/sampo/userinput/parser/history.py
@@ -305,13 +305,10 @@ def set_connections_info(graph_df: pd.DataFrame,
         else:
             if row['predecessor_ids'] != ['-1']:
                 # if 'lags' is unknown, thus 'connection_type' is also unknown
-                pred_info_lst = [[pred_types_lst[i], pred_lags_lst[i], pred_counts_lst[i]]
-                                 for i in range(len(pred_ids_lst)) if pred_ids_lst[i] in row['predecessor_ids']]
+                pred_info = dict(zip(pred_ids_lst, zip(pred_types_lst, pred_lags_lst, pred_counts_lst)))
                 pred_ids_lst = row['predecessor_ids']
-                if len(pred_info_lst) > 0:
-                    pred_types_lst, pred_lags_lst, pred_counts_lst = map(list, zip(*pred_info_lst))
-                else:
-                    pred_types_lst, pred_lags_lst, pred_counts_lst = ['-1'], [1], [INF]
+                pred_types_lst, pred_lags_lst, pred_counts_lst = map(list, zip(
+                    *[pred_info.get(pred_id, ('FS', 1, 0)) for pred_id in pred_ids_lst]))
 
         while len(pred_ids_lst) != len(pred_types_lst):
             pred_types_lst.append('FS')
-- 
2.43.0


From 932fc0cd26996d11e3bc06dab95b0633e5b1d11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 65/74] fix: works tables should load with any index

---
 sampo/userinput/parser/csv_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index 2924c66..b996457 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -84,7 +84,7 @@ class CSVParser:
             raise InputDataException(
                 'you have neither history data about tasks nor tasks\' connection info in received .csv file.')
 
-        graph_df = preprocess_graph_df(graph_df, name_mapper)
+        graph_df = preprocess_graph_df(graph_df.reset_index(drop=True), name_mapper)
         id2ind = {graph_df.loc[i, 'activity_id']: i for i in range(len(graph_df.index))}
         works_info = set_connections_info(graph_df, history_df, mapper=name_mapper,
                                           all_connections=all_connections,
-- 
2.43.0


From d74c0fc6413cd01f50125f5fe6904e268c96412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 66/74] fix: kinds of workers required in a works table should
 not be lost

---
 sampo/userinput/parser/csv_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index b996457..bfe8df9 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -128,6 +128,8 @@ class CSVParser:
                                                                                         work_volume=float(w[1])))
                      for w in works_info.loc[:, ['model_name', 'volume']].to_numpy()]
 
+        if 'min_req' in works_info.columns:
+            resources.extend(works_info['min_req'])
         unique_res = list(set(chain(*[r.keys() for r in resources])))
 
         works_resources = add_graph_info(works_info)
-- 
2.43.0


From f50f98b88aa7e0ea70f53932b956643441d8e8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 67/74] fix: contractors should load from a DataFrame as
 documented

---
 sampo/userinput/parser/csv_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index bfe8df9..417497b 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -177,7 +177,7 @@ class CSVParser:
 
         if isinstance(contractor_info, list):
             contractors = contractor_info
-        elif isinstance(contractor_info, str):
+        elif isinstance(contractor_info, str | pd.DataFrame):
             # if contractor info is given or contractor info and work resource estimator are received simultaneously
             contractor_df = pd.read_csv(contractor_info, sep=';', header=0) if isinstance(contractor_info,
                                                                                           str) else contractor_info
-- 
2.43.0


From 4f814f70380f9c62e538cdef7d532b53db169ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 68/74] fix: ids of contractors loaded from a table should be
 strings

---
 sampo/userinput/parser/csv_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index 417497b..cafa2b3 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -184,7 +184,7 @@ class CSVParser:
             for index, row in contractor_df.iterrows():
                 specified_id = 'contractor_id' in contractor_df.columns
                 column_lag = 2 if specified_id else 1
-                contractor_id = row['contractor_id'] if specified_id else str(uuid4())
+                contractor_id = str(row['contractor_id']) if specified_id else str(uuid4())
                 contractors.append(
                     Contractor(id=contractor_id,
                                name=row['name'],
-- 
2.43.0


From 1fba6f1a59d0d95165a5393fad981edb8402036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 69/74] fix: NameMapper.get should return the name

---
 sampo/utilities/name_mapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/utilities/name_mapper.py b/sampo/utilities/name_mapper.py
index 9aa1c1a..80c63dc 100644
--- a/sampo/utilities/name_mapper.py
+++ b/sampo/utilities/name_mapper.py
@@ -60,7 +60,7 @@ class DummyNameMapper(NameMapper):
         return item
 
     def get(self, item):
-        self.__getitem__(item)
+        return self.__getitem__(item)
 
     @property
     def _source(self) -> NameMapper:
@@ -72,7 +72,7 @@ class DictNameMapper(NameMapper):
         self._source = source
 
     def get(self, item):
-        self.__getitem__(item)
+        return self.__getitem__(item)
 
     def __getitem__(self, item) -> str:
         return self._source[item] if item in self._source else item
@@ -88,7 +88,7 @@ class ModelNameMapper(NameMapper):
         self.__nie()
 
     def get(self, item):
-        self.__getitem__(item)
+        return self.__getitem__(item)
 
     def __getitem__(self, item):
         self.__nie()
-- 
2.43.0


From 868995c77d82d2cbace578861f0b90de7361306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 70/74] fix: Gantt chart should be drawn for every schedule,
 with its zones and all deliveries

---
 sampo/utilities/visualization/schedule.py | 37 +++++++++++++++--------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/sampo/utilities/visualization/schedule.py b/sampo/utilities/visualization/schedule.py
index 4fe814c..795d7e0 100644
--- a/sampo/utilities/visualization/schedule.py
+++ b/sampo/utilities/visualization/schedule.py
@@ -7,6 +7,7 @@ import plotly.express as px
 from matplotlib.figure import Figure
 
 from sampo.schemas import Time, WorkGraph, WorkTimeEstimator, GraphNode
+from sampo.schemas.scheduled_work import ScheduledWork
 from sampo.utilities.visualization.base import VisualizationMode, visualize
 
 
@@ -31,11 +32,16 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
         schedule_dataframe = schedule_dataframe.loc[schedule_dataframe.loc[:, 'volume'] >= 0.1]
 
     schedule_dataframe = schedule_dataframe.rename({'workers': 'workers_dict'}, axis=1)
+    if 'task_name_mapped' not in schedule_dataframe.columns:
+        schedule_dataframe['task_name_mapped'] = schedule_dataframe['task_name']
     schedule_dataframe.loc[:, 'workers'] = schedule_dataframe.loc[:, 'workers_dict']\
         .apply(lambda x: x.replace(", '", ", <br>'"))
 
     schedule_start = schedule_dataframe.loc[:, 'start'].min()
     schedule_finish = schedule_dataframe.loc[:, 'finish'].max()
+    # the date of the zero moment; the first work may start later
+    schedule_zero = schedule_dataframe['finish'].iloc[0] - \
+        timedelta(int(schedule_dataframe['scheduled_work_object'].iloc[0].finish_time))
     visualization_start_delta = timedelta(days=2)
     visualization_finish_delta = timedelta(days=(schedule_finish - schedule_start).days // 3)
 
@@ -52,14 +58,15 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
                 'task_name_mapped': mat_name,
                 'task_name': '',
                 'zone_information': '',
-                'start': timedelta(material[1].value) + schedule_start,
-                'finish': timedelta(material[2].value) + schedule_start}
+                'start': timedelta(material[1].value) + schedule_zero,
+                'finish': timedelta(material[2].value) + schedule_zero}
 
     sworks = schedule_dataframe['scheduled_work_object'].copy()
     idx = schedule_dataframe['idx'].copy()
 
     def get_delivery_info(swork) -> str:
-        return '<br>' + '<br>'.join([f'{mat[0][0]}: {mat[0][1]}' for mat in swork.materials.delivery.values()])
+        return '<br>' + '<br>'.join([f'{name}: {sum(mat[0] for mat in mat_info)}'
+                                      for name, mat_info in swork.materials.delivery.items()])
 
     schedule_dataframe['material_information'] = sworks.apply(get_delivery_info)
 
@@ -69,8 +76,8 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
     for i, swork in zip(idx, sworks):
         delivery = swork.materials.delivery
         for name, mat_info in delivery.items():
-            if delivery:
-                mat_delivery_row.append(create_delivery_row(i, name, mat_info[0]))
+            for material in mat_info:
+                mat_delivery_row.append(create_delivery_row(i, name, material))
 
     def create_zone_row(i, zone_names, zone) -> dict:
         return {'idx': i,
@@ -85,14 +92,14 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
                 'task_name_mapped': zone_names,
                 'task_name': '',
                 'zone_information': '',
-                'start': timedelta(int(zone.start_time)) + schedule_start,
-                'finish': timedelta(int(zone.end_time)) + schedule_start}
+                'start': timedelta(int(zone.start_time)) + schedule_zero,
+                'finish': timedelta(int(zone.end_time)) + schedule_zero}
 
     sworks = schedule_dataframe['scheduled_work_object'].copy()
     idx = schedule_dataframe['idx'].copy()
 
     def get_zone_usage_info(swork) -> str:
-        return '<br>' + '<br>'.join([f'{zone.model_name}: {zone.to_status}' for zone in swork.zones_pre])
+        return '<br>' + '<br>'.join([f'{zone.name}: {zone.to_status}' for zone in swork.zones_pre])
 
     schedule_dataframe['zone_information'] = sworks.apply(get_zone_usage_info)
 
@@ -100,10 +107,10 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
 
     # create zone information
     for i, swork in zip(idx, sworks):
-        zone_names = '<br>' + '<br>'.join([zone.model_name for zone in swork.zones_pre])
+        zone_names = '<br>' + '<br>'.join([zone.name for zone in swork.zones_pre])
         for zone in swork.zones_pre:
             access_cards.append(create_zone_row(i, zone_names, zone))
-        zone_names = '<br>' + '<br>'.join([zone.model_name for zone in swork.zones_post])
+        zone_names = '<br>' + '<br>'.join([zone.name for zone in swork.zones_post])
         for zone in swork.zones_post:
             access_cards.append(create_zone_row(i, zone_names, zone))
 
@@ -113,11 +120,15 @@ def schedule_gant_chart_fig(schedule_dataframe: pd.DataFrame,
         schedule_dataframe['color'] = schedule_dataframe[['task_name', 'contractor']] \
             .apply(lambda r: 'Defect' if ':' in r['task_name'] else r['contractor'], axis=1)
     elif color_type == 'priority':
-        schedule_dataframe['color'] = schedule_dataframe['scheduled_work_object'].apply(lambda x: f'Priority {x.priority}')
+        schedule_dataframe['color'] = schedule_dataframe[['scheduled_work_object', 'contractor']] \
+            .apply(lambda r: f"Priority {r['scheduled_work_object'].priority}"
+                   if isinstance(r['scheduled_work_object'], ScheduledWork) else r['contractor'], axis=1)
     elif color_type == 'critical_path':
         critical_path_nodes = set(map(attrgetter('id'), critical_path))
-        schedule_dataframe['color'] = schedule_dataframe['scheduled_work_object'] \
-                .apply(lambda x: 'Critical path' if x.id in critical_path_nodes else 'Not critical path')
+        schedule_dataframe['color'] = schedule_dataframe[['scheduled_work_object', 'contractor']] \
+            .apply(lambda r: ('Critical path' if r['scheduled_work_object'].id in critical_path_nodes
+                              else 'Not critical path')
+                   if isinstance(r['scheduled_work_object'], ScheduledWork) else r['contractor'], axis=1)
 
     schedule_dataframe['idx'] = (schedule_dataframe[['idx', 'task_name']]
                                  .apply(lambda r: schedule_dataframe[schedule_dataframe['task_name'] ==
-- 
2.43.0


From b59a307ba756424f35d97880c0b04afdf3dc2f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 71/74] fix: employment charts should be drawn for schedules

---
 sampo/utilities/visualization/resources.py | 38 +++++++++-------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/sampo/utilities/visualization/resources.py b/sampo/utilities/visualization/resources.py
index e42e393..31eef00 100644
--- a/sampo/utilities/visualization/resources.py
+++ b/sampo/utilities/visualization/resources.py
@@ -89,7 +89,7 @@ def create_employment_fig(resources: Union[DataFrame, ResourceSchedule],
             fig.update_traces(textposition='inside')
         return visualize(fig, vis_mode, file_name)
 
-    assert isinstance(resources, ResourceSchedule), \
+    assert isinstance(resources, dict), \
         f'Wrong data format. Expected ResourceSchedule, got {type(resources)} instead.'
 
     # 1. tune plot parameters according to the data size
@@ -103,7 +103,7 @@ def create_employment_fig(resources: Union[DataFrame, ResourceSchedule],
     fig, ax = plt.subplots(figsize=size, dpi=dpi)
     for name, worker_schedule in resources.items():
         for worker_time in worker_schedule:
-            ax.barh(name, left=worker_time[0], width=worker_time[1] - worker_time[0])
+            ax.barh(name, left=int(worker_time[0]), width=int(worker_time[1] - worker_time[0]))
 
     for i in range(len(resources) + 1):
         ax.axhline(i - 0.5, color='black')
@@ -184,7 +184,7 @@ def get_schedule_df(schedule: ScheduleWorkDict, fig_type: EmploymentFigType, pro
             for worker in resources:
                 if worker.name not in resource_schedule:
                     resource_schedule[worker.name] = np.array([0] * int(max_time))
-                resource_schedule[worker.name][start:finish + 1] += worker.count
+                resource_schedule[worker.name][int(start):int(finish) + 1] += worker.count
 
         data = list(chain(*[[(timedelta(days=i), timedelta(days=i + 1), r, c) for i, c in enumerate(s) if c > 0]
                             for r, s in resource_schedule.items()]))
@@ -212,33 +212,27 @@ def get_schedule_df(schedule: ScheduleWorkDict, fig_type: EmploymentFigType, pro
 
 def get_workers_intervals(schedule: Schedule, group_workers_by_specializations: bool = False) \
         -> ResourceSchedule:
-    resources_time_intervals_dict: dict[Time, dict[str, int]] = defaultdict(lambda: defaultdict(int))
+    resources_changes: dict[Time, dict[str, int]] = defaultdict(lambda: defaultdict(int))
     for item in schedule.works:
         start: Time = item.start_time
         finish: Time = item.finish_time
         workers: list[Worker] = item.workers
         for worker in workers:
-            resources_time_intervals_dict[start][worker.name] -= worker.count
-            resources_time_intervals_dict[finish][worker.name] += worker.count
-
-    min_resources: dict[str, int] = defaultdict(int)
-    for milestone, resources in resources_time_intervals_dict.items():
-        resources_time_intervals_dict[milestone] = dict(resources)
-        for name in resources:
-            min_resources[name] = min(min_resources[name], resources[name])
-    resources_time_intervals_dict = dict(resources_time_intervals_dict)
-
-    resources_time_intervals: list[Time, dict[str, int]] = list(resources_time_intervals_dict.items())
-    resources_time_intervals = sorted(resources_time_intervals, key=itemgetter(0))
+            resources_changes[start][worker.name] += worker.count
+            resources_changes[finish][worker.name] -= worker.count
+
+    milestones: list[tuple[Time, dict[str, int]]] = sorted(resources_changes.items(), key=itemgetter(0))
+    employed: dict[str, int] = defaultdict(int)
     workers_intervals = defaultdict(list)
-    for index, (start, resources) in enumerate(resources_time_intervals[:-1]):
-        finish = resources_time_intervals[index + 1]
-        for name in resources:
-            resources[name] -= min_resources[name]
+    for (start, changes), (finish, _) in zip(milestones, milestones[1:]):
+        for name, change in changes.items():
+            employed[name] += change
+        for name, count in employed.items():
             if group_workers_by_specializations:
-                workers_intervals[name].append((start, finish))
+                if count > 0:
+                    workers_intervals[name].append((start, finish))
             else:
-                for w_index in range(resources[name]):
+                for w_index in range(count):
                     workers_intervals[f'{name}{SPLITTER}{w_index}'].append((start, finish))
 
     if group_workers_by_specializations:
-- 
2.43.0


From 896bd7d315ffe3e7363131a654537f99368cac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:56 +0000
Subject: [PATCH 72/74] fix: work graph chart should be drawn for works with
 model names as dictionaries

---
 sampo/utilities/visualization/work_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/utilities/visualization/work_graph.py b/sampo/utilities/visualization/work_graph.py
index 45a546a..490222d 100644
--- a/sampo/utilities/visualization/work_graph.py
+++ b/sampo/utilities/visualization/work_graph.py
@@ -99,10 +99,10 @@ def collect_jobs(start: GraphNode, max_deep: Optional[int] = None) -> tuple[list
         max_volume = max(max_volume, volume)
         id_to_job[unit.id] = len(jobs)
         jobs.append(
-            dict(job_id=len(jobs), work_id=str(unit.id), task=unit.model_name, start=X_PERIOD * deep,
+            dict(job_id=len(jobs), work_id=str(unit.id), task=unit.display_name, start=X_PERIOD * deep,
                  children=node.children, parents=node.parents,
                  group=unit.group, color=color_from_str(unit.group), volume=volume,
-                 cluster=extract_cluster_name(unit.model_name)))
+                 cluster=extract_cluster_name(unit.display_name)))
         colors[unit.group] = color_from_str(unit.group)
         for child in node.children:
             work_id = child.id
-- 
2.43.0


From f10705d73773ebb1539e3f4f91cdab34acfca285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:06 +0000
Subject: [PATCH 73/74] fix: parallel dependencies between the same works
 should be restructured

---
 sampo/structurator/base.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/sampo/structurator/base.py b/sampo/structurator/base.py
index 811ac1a..59b806e 100644
--- a/sampo/structurator/base.py
+++ b/sampo/structurator/base.py
@@ -23,7 +23,7 @@ def make_new_node_id(work_unit_id: str, ind: int) -> str:
 
 
 def fill_parents_to_new_nodes(origin_node: GraphNode, id2new_nodes: dict[str, GraphNode],
-                              restructuring_edges2new_nodes_id: dict[tuple[str, str], str],
+                              restructuring_edges2new_nodes_id: dict[tuple[int, bool], str],
                               use_lag_edge_optimization: bool):
     """
     Restores parent edges for transformed node
@@ -31,7 +31,7 @@ def fill_parents_to_new_nodes(origin_node: GraphNode, id2new_nodes: dict[str, Gr
     :param origin_node: GraphNode - The original unconverted node
     :param id2new_nodes: GraphNodeDict - Dictionary with restructured new nodes id
         where the restructured nodes are written
-    :param restructuring_edges2new_nodes_id: dict[tuple[str, str], str] - Dictionary for matching edges in the original
+    :param restructuring_edges2new_nodes_id: dict[tuple[int, bool], str] - Dictionary for matching edges in the original
         work graph and IDs of new nodes that logically match those edges
     :param use_lag_edge_optimization: bool - if true - considers lags amount in edges,
         otherwise considers lags equal to zero and LagFinishStart edges as FinishStart edges
@@ -88,21 +88,21 @@ def fill_parents_to_new_nodes(origin_node: GraphNode, id2new_nodes: dict[str, Gr
             match edge.type:
                 case EdgeType.StartStart:
                     # get id of corresponding created stage node of original parent node
-                    new_parent_node_id = restructuring_edges2new_nodes_id.pop((edge.start.id, edge.finish.id))
+                    new_parent_node_id = restructuring_edges2new_nodes_id[(id(edge), False)]
                     # get parent's stage node by received id and add edge between it and first stage of current node
                     parents_first_stage.append((id2new_nodes[new_parent_node_id], indent, EdgeType.FinishStart))
                 case EdgeType.FinishFinish:
                     # get id of corresponding stage of current node and get the stage node itself
-                    stage_node = id2new_nodes[restructuring_edges2new_nodes_id.pop((edge.finish.id, edge.start.id))]
+                    stage_node = id2new_nodes[restructuring_edges2new_nodes_id[(id(edge), True)]]
                     # add edge between parent's created last stage node and received stage node
                     stage_node.add_parents([(id2new_nodes[edge.start.id], indent, EdgeType.FinishStart)])
                 case EdgeType.LagFinishStart:
                     # get id of corresponding created stage node of original parent node
-                    new_parent_node_id = restructuring_edges2new_nodes_id.pop((edge.start.id, edge.finish.id))
+                    new_parent_node_id = restructuring_edges2new_nodes_id[(id(edge), False)]
                     # get parent's stage node by received id and add edge between it and first stage of current node
                     parents_first_stage.append((id2new_nodes[new_parent_node_id], indent, EdgeType.FinishStart))
                     # get id of corresponding stage of current node and get the stage node itself
-                    stage_node = id2new_nodes[restructuring_edges2new_nodes_id.pop((edge.finish.id, edge.start.id))]
+                    stage_node = id2new_nodes[restructuring_edges2new_nodes_id[(id(edge), True)]]
                     # add edge between parent's created last stage node and received stage node
                     stage_node.add_parents([(id2new_nodes[edge.start.id], indent, EdgeType.FinishStart)])
 
@@ -114,7 +114,7 @@ def fill_parents_to_new_nodes(origin_node: GraphNode, id2new_nodes: dict[str, Gr
 
 def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tuple[GraphEdge, bool]],
                            id2new_nodes: dict[str, GraphNode],
-                           restructuring_edges2new_nodes_id: dict[tuple[str, str], str],
+                           restructuring_edges2new_nodes_id: dict[tuple[int, bool], str],
                            use_lag_edge_optimization: bool):
     """
     Splits the node into stages according to the lags in the restructuring edges.
@@ -126,7 +126,7 @@ def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tup
     :param origin_node: GraphNode - Node to be divided into stages
     :param id2new_nodes: GraphNodeDict - Dictionary with restructured new nodes id where the restructured nodes will
         be written
-    :param restructuring_edges2new_nodes_id: dict[tuple[str, str], str] - Dictionary for matching edges in the original
+    :param restructuring_edges2new_nodes_id: dict[tuple[int, bool], str] - Dictionary for matching edges in the original
         work graph and IDs of new nodes that logically match those edges
     :param use_lag_edge_optimization: bool - if true - considers lags amount in edges,
         otherwise considers lags equal to zero and LagFinishStart edges as FinishStart edges
@@ -198,7 +198,7 @@ def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tup
         # make new graph node for new stage with created work unit and with passed edge to previous stage node
         return GraphNode(new_wu, edge_with_prev_stage_node)
 
-    def match_prev_edges_with_stage_nodes_id(restructuring_edges2new_nodes_id: dict[tuple[str, str], str]):
+    def match_prev_edges_with_stage_nodes_id(restructuring_edges2new_nodes_id: dict[tuple[int, bool], str]):
         """
         Matches the original edges, along which a previous stage node has been created,
         and IDs of the previous and current stage nodes.
@@ -207,10 +207,7 @@ def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tup
         Edges that leave the node matches to the previous stage node.
         """
         for prev_edge, prev_is_edge_to_node in edges_to_match_with_stage_nodes:
-            start, finish = prev_edge.start.id, prev_edge.finish.id
-            if prev_is_edge_to_node:
-                start, finish = finish, start
-            restructuring_edges2new_nodes_id[(start, finish)] = \
+            restructuring_edges2new_nodes_id[id(prev_edge), prev_is_edge_to_node] = \
                 prev_stage_node_id if not prev_is_edge_to_node else stage_node_id
 
     wu = origin_node.work_unit
@@ -356,10 +353,10 @@ def graph_restructuring(wg: WorkGraph, use_lag_edge_optimization: Optional[bool]
     # mapper of IDs of new nodes and the new nodes themselves that represent the restructured graph
     id2new_nodes: dict[str, GraphNode] = dict()
     # mapper of original edges and IDs of new nodes that should be connected.
-    # edge is specified by two IDs of the nodes that this edge connects.
-    # the order of the node IDs determines (based on the first ID) on which side of the edge the new node ID is written.
+    # edge is specified by its identity, since the same two nodes can be connected by several edges.
+    # the flag determines on which side of the edge the new node ID is written: if true - the edge enters the node.
     # used only if the use_lag_edge_optimization is True, since otherwise the connection is trivial
-    restructuring_edges2new_nodes_id: dict[tuple[str, str], str] = dict()
+    restructuring_edges2new_nodes_id: dict[tuple[int, bool], str] = dict()
     # iterate over each node,
     # keeping all the edges that need to be removed and which will break the node into stages,
     # creating a new node (possibly with stage nodes) that will be in the final restructured graph,
-- 
2.43.0


From 2303638552d8d0e19982ddd64d180166fb5aee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:39 +0000
Subject: [PATCH 74/74] fix: work unit should keep its name when copied

---
 sampo/schemas/works.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index 73ab119..a0baf73 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -181,3 +181,4 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         self.group = new_work_unit.group
         self.display_name = new_work_unit.display_name
         self.priority = new_work_unit.priority
+        self.name = new_work_unit.name
-- 
2.43.0

