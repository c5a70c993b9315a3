From 1fbc96ae5b5c23b526216f276fefa5beda77a43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 01/26] fix: log the STOP of a shift or move for the activity
 that started it

---
 src/openclsim/core/movable.py   | 10 +++++++---
 src/openclsim/core/processor.py | 28 ++++++++++++++++++++++------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 31f0fec..8732e95 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -93,10 +93,14 @@ class Movable(Locatable, PerformsActivity, Log):
         if engine_order is not None:
             self.engine_order = engine_order
 
+        # A mover with multiple resources can move for multiple activities at the same
+        # time, keep the activity for which this move was started.
+        activity_id = self.activity_id
+
         # Log the start event
         self.log_entry_v1(
             self.env.now,
-            self.activity_id,
+            activity_id,
             LogState.START,
         )
 
@@ -105,7 +109,7 @@ class Movable(Locatable, PerformsActivity, Log):
             duration = self.compute_duration(self.geometry, destination.geometry)
 
         # Check out the time based on duration of sailing event
-        yield self.env.timeout(duration, value=self.activity_id)
+        yield self.env.timeout(duration, value=activity_id)
 
         # Set mover geometry to destination geometry
         self.geometry = shapely.geometry.shape(destination.geometry)
@@ -113,7 +117,7 @@ class Movable(Locatable, PerformsActivity, Log):
         # Log the stop event
         self.log_entry_v1(
             self.env.now,
-            self.activity_id,
+            activity_id,
             LogState.STOP,
         )
 
diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index e4beaf3..c3a6a02 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -51,11 +51,15 @@ class Processor(SimpyObject):
         assert self.is_at(origin)
         assert destination.is_at(origin)
 
+        # A processor with multiple resources can process for multiple activities at the
+        # same time, keep the activity for which this process was started.
+        activity_id = self.activity_id
+
         # Log the process for all parts
         for location in set([self, origin, destination]):
             location.log_entry_v1(
                 t=location.env.now,
-                activity_id=self.activity_id,
+                activity_id=activity_id,
                 activity_state=LogState.START,
             )
 
@@ -69,8 +73,9 @@ class Processor(SimpyObject):
             activity="get",
             reserved_amount=reserved_amount,
             id_=id_,
+            activity_id=activity_id,
         )
-        yield self.env.timeout(duration, value=self.activity_id)
+        yield self.env.timeout(duration, value=activity_id)
         # Put the amount in the destination
         yield from self.check_possible_shift(
             origin=origin,
@@ -79,18 +84,26 @@ class Processor(SimpyObject):
             activity="put",
             reserved_amount=reserved_amount,
             id_=id_,
+            activity_id=activity_id,
         )
 
         # Log the process for all parts
         for location in set([self, origin, destination]):
             location.log_entry_v1(
                 t=location.env.now,
-                activity_id=self.activity_id,
+                activity_id=activity_id,
                 activity_state=LogState.STOP,
             )
 
     def check_possible_shift(
-        self, origin, destination, amount, activity, reserved_amount, id_="default"
+        self,
+        origin,
+        destination,
+        amount,
+        activity,
+        reserved_amount,
+        id_="default",
+        activity_id=None,
     ):
         """
         Check if all the material is available.
@@ -99,6 +112,9 @@ class Processor(SimpyObject):
         yield a put or get. Time will move forward until the amount can be
         retrieved from the origin or placed into the destination.
         """
+        if activity_id is None:
+            activity_id = self.activity_id
+
         obj_map = {"get": origin, "put": destination}
         obj = obj_map[activity]
         method = getattr(obj.container, activity)
@@ -120,7 +136,7 @@ class Processor(SimpyObject):
         if start_time != end_time:
             self.log_entry_v1(
                 t=start_time,
-                activity_id=self.activity_id,
+                activity_id=activity_id,
                 activity_state=LogState.WAIT_START,
                 activity_label={
                     "type": "subprocess",
@@ -129,7 +145,7 @@ class Processor(SimpyObject):
             )
             self.log_entry_v1(
                 t=end_time,
-                activity_id=self.activity_id,
+                activity_id=activity_id,
                 activity_state=LogState.WAIT_STOP,
                 activity_label={
                     "type": "subprocess",
-- 
2.43.0


From 26d8fd7706c1a3441a3db679aab9f0e686c359c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 02/26] fix: apply the engine order of movers with a container
 dependent speed

---
 src/openclsim/core/movable.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 8732e95..e25c82c 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -59,7 +59,7 @@ class Movable(Locatable, PerformsActivity, Log):
         super().__init__(*args, **kwargs)
         """Construct a movable object."""
         self._v = v
-        self.engine_order = 1.0
+        self.engine_order = engine_order
 
     def move(
         self,
@@ -195,9 +195,8 @@ class ContainerDependentMovable(Movable, HasContainer):
 
     @property
     def v(self):
-        return self.compute_v(
-            self.container.get_level() / self.container.get_capacity()
-        )
+        fill_degree = self.container.get_level() / self.container.get_capacity()
+        return self.compute_v(fill_degree) * self.engine_order
 
 
 class MultiContainerDependentMovable(Movable, HasMultiContainer):
@@ -229,7 +228,7 @@ class MultiContainerDependentMovable(Movable, HasMultiContainer):
             sum_level = self.container.get_level(id_)
             sum_capacity = self.container.get_capacity(id_)
         fill_degree = sum_level / sum_capacity
-        return self.compute_v(fill_degree)
+        return self.compute_v(fill_degree) * self.engine_order
 
 
 class Routable(Movable, Locatable):
-- 
2.43.0


From 6b70c957f157905efb234b943f6976c7124d00b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 03/26] fix: use the fill degree of all containers for the
 multi container dependent speed

---
 src/openclsim/core/movable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index e25c82c..deef344 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -225,8 +225,8 @@ class MultiContainerDependentMovable(Movable, HasMultiContainer):
         sum_level = 0
         sum_capacity = 0
         for id_ in self.container.container_list:
-            sum_level = self.container.get_level(id_)
-            sum_capacity = self.container.get_capacity(id_)
+            sum_level += self.container.get_level(id_)
+            sum_capacity += self.container.get_capacity(id_)
         fill_degree = sum_level / sum_capacity
         return self.compute_v(fill_degree) * self.engine_order
 
-- 
2.43.0


From 1104b9ef339f5a0a2c004228c2915f054eb30f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:17 +0000
Subject: [PATCH 04/26] fix: report the direct parent of nested sub processes
 in the activity tree

---
 src/openclsim/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 7497e88..5a7323f 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -58,8 +58,10 @@ def get_tree_as_list(treelist, depth=0) -> dict:
             d = get_tree_as_list(act.sub_processes, depth + 1)
             ActivityID += d["ActivityID"]
             activity += d["activity"]
-            ParentId += [act.id] * len(d["activity"])
-            ParentName += [act.name] * len(d["ParentName"])
+            # only the direct sub processes have this activity as their parent
+            n_sub = len(act.sub_processes)
+            ParentId += [act.id] * n_sub + d["ParentId"][n_sub:]
+            ParentName += [act.name] * n_sub + d["ParentName"][n_sub:]
             ActivityClass += d["ActivityClass"]
             ActivityName += d["ActivityName"]
             ParentLevel += d["ParentLevel"]
-- 
2.43.0


From 21cbd5c08639e061c18fffec5206dd93d5b20b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 05/26] fix: do not mix sub process entries into the time
 ranges of an activity

---
 src/openclsim/io.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 5a7323f..740694a 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -157,6 +157,11 @@ def get_ranges_dataframe(simulation_object, id_map=None):
 
     log = get_log_dataframe(simulation_object, id_map=id_map)
 
+    # the START and STOP of sub processes in the log of a structural activity are not
+    # ranges of that activity itself
+    if "type" in log.columns:
+        log = log[log["type"] != "subprocess"]
+
     idkey = "Activity"  # ActivityID
 
     li = []
-- 
2.43.0


From e533bec44c5891d9305e2f66bf6e422a7f13ce62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 06/26] fix: accept a manual id map in the log dataframe

---
 src/openclsim/plot/log_dataframe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/plot/log_dataframe.py b/src/openclsim/plot/log_dataframe.py
index 200aa85..f878f0c 100644
--- a/src/openclsim/plot/log_dataframe.py
+++ b/src/openclsim/plot/log_dataframe.py
@@ -23,7 +23,9 @@ def get_log_dataframe(simulation_object, id_map=None):
     if id_map is None:
         id_map = []
 
-    if isinstance(id_map, dict):
+    if isinstance(id_map, dict) and not all(
+        isinstance(item, str) for item in id_map.values()
+    ):
         id_map = [*id_map.values()]
     if isinstance(id_map, list):
         # TO DO should in fact be recursive for nested activities
-- 
2.43.0


From 80b79d543572d517ba1bc47ad73e612b51eabcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 07/26] fix: end the weather window at the only transition of
 the metocean data

---
 src/openclsim/plugins/weather.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 75a2689..1ac55b7 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -181,11 +181,14 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         data["ts_inter"] = np.maximum.reduce(data[columns].values, axis=1)
         data["end_inter"] = data.ts_inter.shift(-1)
 
+        # determine the last type before the first row is rewritten, it can be the same
+        # row when the data contains only one transition.
+        last_type = data.iloc[-1]["type"]
         if data.iloc[0]["type"] == "end":
             data.iloc[0, data.columns.get_loc("type")] = "start"
             data.iloc[0, data.columns.get_loc("end_inter")] = data.iloc[0]["ts_inter"]
             data.iloc[0, data.columns.get_loc("ts_inter")] = orig_data.iloc[0]["ts"]
-        if data.iloc[-1]["type"] == "start":
+        if last_type == "start":
             data.iloc[-1, data.columns.get_loc("end_inter")] = orig_data.iloc[-1]["ts"]
 
         data.rename(columns={"ts_inter": "start_inter"}, inplace=True)
-- 
2.43.0


From b2672ab5a6c70d7f69397d5a8b26635542c76709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 08/26] fix: shift the weather window along with the repeated
 metocean data

---
 src/openclsim/plugins/weather.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 1ac55b7..110c515 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -112,14 +112,16 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         ts_start = res["dataset_start"]
         ts_stop = res["dataset_stop"]
 
+        # the metocean data is repeated when the simulation runs past the last window
+        dt = 0
         filter_windows = windows[windows[:, 1] >= start_time]
-        i = 0
+        i = 1
         while len(filter_windows) < 1 and i < 10:
             dt = i * (ts_stop - ts_start)
             filter_windows = windows[windows[:, 1] >= start_time - dt]
             i = i + 1
 
-        return list(filter_windows[0])
+        return list(filter_windows[0] + dt)
 
     def process_data(self, criterion) -> dict:
         col = criterion.condition
-- 
2.43.0


From a420dc8546e3efde8150f63b4f834c3f5cabf6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:49 +0000
Subject: [PATCH 09/26] fix: accept metocean data that touches but never
 crosses the threshold

---
 src/openclsim/plugins/weather.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index 110c515..e9fadaa 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -139,7 +139,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         if criterion.maximum is not None:
             threshold = {col: criterion.maximum}
 
-            if orig_data[col].max() < threshold[col]:
+            if orig_data[col].max() <= threshold[col]:
                 return {
                     "dataset_start": ts_start,
                     "dataset_stop": ts_stop,
@@ -153,7 +153,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         else:
             threshold = {col: criterion.minimum}
 
-            if orig_data[col].min() > threshold[col]:
+            if orig_data[col].min() >= threshold[col]:
                 return {
                     "dataset_start": ts_start,
                     "dataset_stop": ts_stop,
-- 
2.43.0


From 9bc98ab1d7bc8c5309d0fe2b4e22045bff4f5095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 10/26] fix: wait for content or space before shifting an
 amount, as documented

---
 src/openclsim/core/processor.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index c3a6a02..f5a9bea 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -119,7 +119,24 @@ class Processor(SimpyObject):
         obj = obj_map[activity]
         method = getattr(obj.container, activity)
 
+        # The content that should at least be available in the origin or the level that
+        # should not be exceeded in the destination (with a tolerance for rounding).
+        capacity = obj.container.get_capacity(id_)
+        tolerance = 1e-9 * capacity
+        if activity == "get":
+            operator, level = "ge", amount - tolerance
+        else:
+            operator, level = "le", capacity - amount + tolerance
+
         start_time = self.env.now
+        while (
+            obj.container.get_level(id_) < level
+            if activity == "get"
+            else obj.container.get_level(id_) > level
+        ):
+            yield obj.container.get_container_event(
+                level=level, operator=operator, id_=id_
+            )
         # Shift amounts in containers
         yield method(
             amount,
-- 
2.43.0


From d5ad9f3820a3a2776e8e3e44250be1d96d523aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:19 +0000
Subject: [PATCH 11/26] fix: pass the level before and after unloading to a
 callable unloading rate

---
 src/openclsim/core/processor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/core/processor.py b/src/openclsim/core/processor.py
index f5a9bea..b242dc5 100644
--- a/src/openclsim/core/processor.py
+++ b/src/openclsim/core/processor.py
@@ -296,9 +296,10 @@ class UnloadingFunction:
             duration = amount / self.unloading_rate + self.unload_manoeuvring * 60
             return duration, amount
         else:
+            # the amount has not yet been removed from the origin
             unloading_time = self.unloading_rate(
-                origin.container.get_level(id_) + amount,
                 origin.container.get_level(id_),
+                origin.container.get_level(id_) - amount,
             )
             duration = unloading_time + self.unload_manoeuvring * 60
             return duration, amount
-- 
2.43.0


From bacc01bdee08f43f62925268d72550e8245a1012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 12/26] fix: let re-registered sub processes wait for the new
 start of their parent

---
 src/openclsim/model/base_activities.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/model/base_activities.py b/src/openclsim/model/base_activities.py
index 6d618e3..1e1a87f 100644
--- a/src/openclsim/model/base_activities.py
+++ b/src/openclsim/model/base_activities.py
@@ -139,10 +139,11 @@ class GenericActivity(PluginActivity):
     def register_process(self):
         # replace the events
         self.done_event = self.env.event()
+        # and let the sub processes wait for the replaced events
         if hasattr(self, "start_sequence") and self.start_sequence.processed:
-            self.start_sequence = self.env.event()
+            self.register_subprocesses()
         if hasattr(self, "start_parallel") and self.start_parallel.processed:
-            self.start_parallel = self.env.event()
+            self.register_subprocesses()
 
         # Make container reservations
         if hasattr(self, "make_container_reservation"):
-- 
2.43.0


From f50dcee6fd5d6f1522add0fdf71f09519c8c5f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 13/26] fix: find all critical activities, and only those, on
 the longest paths

---
 .../critical_path/simulation_graph.py         | 176 ++++--------------
 1 file changed, 38 insertions(+), 138 deletions(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index c42878b..9736fb6 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -3,7 +3,6 @@ Module that contains class SimulationGraph.
 SimulationGraph is a graph representation of simulated activities and their dependencies.
 """
 
-import copy
 import datetime as dt
 import logging
 
@@ -277,148 +276,49 @@ class SimulationGraph:
                 dependency_cause, dependency_effect, **edge_kwargs
             )
 
-    def __find_critical_edges(
-        self,
-        marked_edges_graph=None,
-        list_critical=None,
-        list_noncritical=None,
-        to_discount=None,
-        max_duration=None,
-        t_max_end=None,
-        duration_discounted_prev=None,
-    ):
+    def __find_critical_edges(self):
         """
-        Create a list of edges on a longest path in the graph (recursively).
-
-        This method recursively builds a list of edges in the activity graph
-        which are on the longest path. In a nutshell the process is as follows:
-
-        0. Create a shadow/copy of the activity graph 'marked_edges_graph'.
-        1. Find an initial longest path, mark all edges on it as such, and set
-           their 'duration' to 10**-4 on the shadow-graph (i.e. discount all
-           edges which have already been marked).
-        2. Find a new longest path in the shadow-graph, and check if the
-           duration in the original graph equals the maximum length. If so,
-           good! Mark all edges as critical and set duration in the shadow
-           graph to 10**-4. If not a feasible longest path, then mark the last
-           edge as noncritical, and set its weight in the shadow graph to
-           10**-8.
-        3. Repeat until all edges are marked as critical or non-critical.
-        """
-
-        feasible_longest = False  # all edges on path can be discounted at once
-
-        # the initial iteration
-        if marked_edges_graph is None:
-            # make a copy of the graph to change weights
-            marked_edges_graph = copy.deepcopy(self.simulation_graph)
-
-            # get an initial longest path
-            longest_path = nx.dag_longest_path(self.simulation_graph, weight="duration")
-            list_critical = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-            logging.debug(f"Found initial longest path {list_critical}.")
-
-            # get the end time of the initial longest path
-            t_start = self.simulation_graph.nodes[longest_path[0]]["time"]
-            t_max_end = self.simulation_graph.nodes[longest_path[-1]]["time"]
+        Create a list of the activity edges which are on a longest path in the graph.
 
-            logging.debug(
-                f"Max duration {round(self.max_duration, 2)}, "
-                f"t_start {t_start} and t_max end {t_max_end}."
-            )
-
-            # ready to continue
-            list_noncritical = []
-            to_discount = []
-            feasible_longest = True
-
-        # any following iteration
-        else:
-            # get the current longest path in the discount graph
-            longest_path = nx.dag_longest_path(marked_edges_graph, weight="duration")
-            lp_edges = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-
-            # get the original duration
-            lp_duration_discounted = nx.path_weight(
-                marked_edges_graph, longest_path, weight="duration"
-            )
-            lp_duration = round(
-                nx.path_weight(self.simulation_graph, longest_path, weight="duration"),
-                2,
-            )
-            t_start = self.simulation_graph.nodes[longest_path[0]]["time"]
-            t_end = self.simulation_graph.nodes[longest_path[-1]]["time"]
-            logging.debug(
-                f"longest path found: duration {lp_duration}, t_start "
-                f"{t_start} and t_end {t_end}. (discounted duration "
-                f"{lp_duration_discounted})"
-            )
+        The longest path through an edge is the longest path up to the start of the
+        edge, the edge itself and the longest path from the end of the edge. The edge
+        is critical if the duration thereof equals the duration of the longest path.
 
-            # see if this path is a feasible longest path in the original
-            # i.e. must be max duration and same end time
-            new_cp = (lp_duration == round(self.max_duration, 2)) and (
-                t_end == t_max_end
-            )
-            if new_cp:
-                # create list of not-yet-marked-as-critical critical edges
-                to_add_critical = [
-                    edge for edge in lp_edges if edge not in list_critical
-                ]
-                logging.debug(
-                    "New elements on critical path path, " f"adding {to_add_critical}."
+        Returns
+        -------
+        list_critical : list
+            list of the edges (tuples of nodes) on a path of longest duration
+        """
+        graph = self.simulation_graph
+        nodes = list(nx.topological_sort(graph))
+
+        # longest duration of any path which ends in the node
+        duration_before = dict.fromkeys(nodes, 0)
+        for node in nodes:
+            for _, successor, duration in graph.out_edges(node, data="duration"):
+                duration_before[successor] = max(
+                    duration_before[successor], duration_before[node] + duration
                 )
-                list_critical += to_add_critical
-                feasible_longest = True
-            else:
-                to_add_discount = [edge for edge in lp_edges if edge not in to_discount]
-                logging.debug("adding to discount")
-                to_discount += to_add_discount
-
-        # discount the edges, all at once, or only the last one
-        if feasible_longest:
-            logging.debug("discounting all")
-            # in one go discount all activity edges in critical path
-            list_edges = [
-                i
-                for i in zip(longest_path[:-1], longest_path[1:])
-                if self.simulation_graph.edges[i]["edge_type"] == "activity"
-            ]
-            for edge in list_edges:
-                marked_edges_graph.edges[edge]["duration"] = 10**-4
-                self.simulation_graph.edges[edge][self.__COLNAME_CRITICAL] = (
-                    self.__CRITICAL[1]
+
+        # longest duration of any path which starts in the node
+        duration_after = dict.fromkeys(nodes, 0)
+        for node in reversed(nodes):
+            for _, successor, duration in graph.out_edges(node, data="duration"):
+                duration_after[node] = max(
+                    duration_after[node], duration + duration_after[successor]
                 )
-            yet_to_discount = []
-        else:
-            yet_to_discount = [
-                edge for edge in to_discount if edge not in list_noncritical
-            ]
-            if len(yet_to_discount) > 0:
-                logging.debug(f"Discounting {yet_to_discount[-1]}")
-                marked_edges_graph.edges[yet_to_discount[-1]]["duration"] = 10**-8
-                list_noncritical.append(yet_to_discount[-1])
-                yet_to_discount = yet_to_discount[:-1]
-
-        # iterate if we have yet to discount or if we have marked all edges
-        if len(list_critical) + len(list_noncritical) == self.n_activities:
-            return list_critical
-        return self.__find_critical_edges(
-            marked_edges_graph=marked_edges_graph,
-            list_critical=list_critical,
-            list_noncritical=list_noncritical,
-            to_discount=yet_to_discount,
-            max_duration=max_duration,
-            t_max_end=t_max_end,
-            duration_discounted_prev=duration_discounted_prev,
-        )
+
+        list_critical = []
+        for start, end, data in graph.edges(data=True):
+            if data["edge_type"] != self.__EDGE_TYPES[0]:
+                continue
+            duration = duration_before[start] + data["duration"] + duration_after[end]
+            # durations are rounded, so do not compare exactly
+            if abs(duration - self.max_duration) < 0.01:
+                data[self.__COLNAME_CRITICAL] = self.__CRITICAL[1]
+                list_critical.append((start, end))
+
+        return list_critical
 
     def get_list_critical_activities(self):
         """
-- 
2.43.0


From c016c8fcedd844d1df96e611cd92bc3e51460ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 14/26] fix: stop a loop in the iteration in which a nested
 condition occurred

---
 src/openclsim/model/while_activity.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/model/while_activity.py b/src/openclsim/model/while_activity.py
index 31e81d4..e6a8830 100644
--- a/src/openclsim/model/while_activity.py
+++ b/src/openclsim/model/while_activity.py
@@ -1,11 +1,24 @@
 """While activity for the simulation."""
 
+import simpy
+
 import openclsim.core as core
 
 from .base_activities import GenericActivity, RegisterSubProcesses
 from .helpers import register_processes
 
 
+def event_occurred(event):
+    """Check if an event, or a sufficient part of a (nested) condition, occurred."""
+    if isinstance(event, simpy.events.Condition) and not event.triggered:
+        occurred = [item for item in event._events if event_occurred(item)]
+        return event._evaluate(event._events, len(occurred))
+    if isinstance(event, simpy.Timeout):
+        # a timeout is triggered from the moment it is made
+        return event.processed
+    return event.triggered
+
+
 class ConditionProcessMixin:
     """Mixin for the condition process."""
 
@@ -65,10 +78,12 @@ class ConditionProcessMixin:
             # We check both the static and reactive event. If a event is processed
             # and after that defused the event is overwritten and not longer reactive.
             # Since we cannot defuse simpy events we have to use this workaround.
+            # The nested conditions of an event are checked as well, since these are
+            # processed one by one after the event which ended this iteration.
 
             if (
                 repetitions >= self.max_iterations
-                or static_condition_event.processed is True
+                or event_occurred(static_condition_event)
                 or self.parse_expression(self.condition_event).processed is True
             ):
                 break
-- 
2.43.0


From 6d9dbf1a951f030675f9812e86d89cddcda77d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:23 +0000
Subject: [PATCH 15/26] fix: use the level of the shifted content type in
 loading and unloading functions

---
 src/openclsim/model/shift_amount_activity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/openclsim/model/shift_amount_activity.py b/src/openclsim/model/shift_amount_activity.py
index f564ea4..58cd9e2 100644
--- a/src/openclsim/model/shift_amount_activity.py
+++ b/src/openclsim/model/shift_amount_activity.py
@@ -202,9 +202,9 @@ class ShiftAmountActivity(GenericActivity):
         if self.duration is not None:
             return lambda origin, destination: (self.duration, amount)
         elif self.phase == "loading":
-            return partial(self.processor.loading, amount=amount)
+            return partial(self.processor.loading, amount=amount, id_=self.id_)
         elif self.phase == "unloading":
-            return partial(self.processor.unloading, amount=amount)
+            return partial(self.processor.unloading, amount=amount, id_=self.id_)
         else:
             raise RuntimeError(
                 "Both the phase (loading / unloading) and the duration of the "
-- 
2.43.0


From ca942a108dfb0de4ee67ba7056d13c77940c459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 16/26] fix: give a pending event for a level condition that
 does not hold any more

An event which was triggered, but not processed yet, was handed out again even if
the level did not satisfy the condition any more.
---
 src/openclsim/core/events_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/events_container.py b/src/openclsim/core/events_container.py
index b748dff..d657f70 100644
--- a/src/openclsim/core/events_container.py
+++ b/src/openclsim/core/events_container.py
@@ -82,7 +82,7 @@ class EventsContainer(simpy.FilterStore):
         current_level = self.get_level(id_)
         event_status = getattr(py_opp, operator)(current_level, level)
 
-        if not event or (not event_status and event.processed):
+        if not event or (not event_status and event.triggered):
             # If event_status is still correct keep it otherwise overwrite it.
             self._container_events[(id_, level, operator)] = self._env.event()
 
-- 
2.43.0


From 5633f3a210476cd588e993121679bc3a32c69fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 17/26] fix: keep the order of log entries of the same moment
 in the log dataframe

---
 src/openclsim/plot/log_dataframe.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/openclsim/plot/log_dataframe.py b/src/openclsim/plot/log_dataframe.py
index f878f0c..f9bd469 100644
--- a/src/openclsim/plot/log_dataframe.py
+++ b/src/openclsim/plot/log_dataframe.py
@@ -33,10 +33,9 @@ def get_log_dataframe(simulation_object, id_map=None):
     else:
         id_map = id_map if id_map else {}
 
-    df = (
-        pd.DataFrame(simulation_object.log)
-        .sort_values(by=["Timestamp"])
-        .sort_values(by=["Timestamp"])
+    # entries of the same moment keep the order in which they were logged
+    df = pd.DataFrame(simulation_object.log).sort_values(
+        by=["Timestamp"], kind="stable"
     )
     return pd.concat(
         [
-- 
2.43.0


From 2766249c5021e5ed53c4c4fedf6d504fb4d36b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 18/26] fix: pair the start and stop of a waiting period during
 an activity

---
 src/openclsim/critical_path/base_cp.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/critical_path/base_cp.py b/src/openclsim/critical_path/base_cp.py
index a0c5fe8..92bb80e 100644
--- a/src/openclsim/critical_path/base_cp.py
+++ b/src/openclsim/critical_path/base_cp.py
@@ -181,9 +181,12 @@ class BaseCP(ABC):
             The reformatted and reshaped log.
         """
 
-        df_log = df_log.sort_values(
-            by=["ActivityID", "Timestamp", "ActivityState"]
-        ).reset_index()
+        # an activity can wait during its execution, so do not mix these starts and stops
+        df_log = (
+            df_log.assign(waiting=df_log.ActivityState.str.startswith("WAIT"))
+            .sort_values(by=["ActivityID", "waiting", "Timestamp"])
+            .reset_index()
+        )
 
         df_starts = (
             df_log[df_log.ActivityState.isin(["START", "WAIT_START"])]
-- 
2.43.0


From 6d5f8532bc9a95167c25cbb0c1fc7571758323b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 19/26] fix: leave out the dependencies of activities without
 duration from the graph

---
 src/openclsim/critical_path/simulation_graph.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index 9736fb6..73ba2f8 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -138,9 +138,11 @@ class SimulationGraph:
             )
 
         # drop activities with zero time, they mess up algorithm
-        recorded_activities_df = recorded_activities_df.loc[
-            recorded_activities_df.duration != 0, :
-        ]
+        is_zero = recorded_activities_df.duration == 0
+        self.dropped_activities = set(
+            recorded_activities_df.loc[is_zero, "cp_activity_id"]
+        )
+        recorded_activities_df = recorded_activities_df.loc[~is_zero, :]
         # make sure all durations are positive
         if not all(recorded_activities_df["duration"] > 0):
             raise ValueError("Negative durations encountered in activities.")
@@ -157,9 +159,11 @@ class SimulationGraph:
         """
         assert isinstance(dependency_list, list), "list_dependencies must be a list"
 
+        # dependencies of activities which are dropped are dropped too
         dependency_list = [
             (f"{self.__NODE_END_PREFIX} {end}", f"{self.__NODE_START_PREFIX} {start}")
             for end, start in dependency_list
+            if not {end, start} & self.dropped_activities
         ]
         return dependency_list
 
-- 
2.43.0


From 77a3488bf15e6422733ba0f5e09e4132d99b32c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:51 +0000
Subject: [PATCH 20/26] fix: export the resources of activities without any
 resource as an empty table

---
 src/openclsim/io.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 740694a..341c63c 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -119,16 +119,16 @@ def get_activity_resources(activities, ofile=None):
             )
             for x in df[mask]["activity"]
         ]
-    tmp = list(zip(*li))
-    res = pd.DataFrame.from_dict(
-        {
-            "ActivityID": tmp[0],
-            "ActivityName": tmp[1],
-            "ActivityClass": tmp[2],
-            "ConceptID": tmp[3],
-            "ConceptName": tmp[4],
-            "ConceptMode": tmp[5],
-        }
+    res = pd.DataFrame(
+        li,
+        columns=[
+            "ActivityID",
+            "ActivityName",
+            "ActivityClass",
+            "ConceptID",
+            "ConceptName",
+            "ConceptMode",
+        ],
     )
 
     if ofile:
-- 
2.43.0


From f33aeb02e8c3d7524ef597a7591f7fe19703c276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 21/26] fix: export time ranges of logs without runs and of a
 single unfinished run

---
 src/openclsim/io.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/openclsim/io.py b/src/openclsim/io.py
index 341c63c..f5273f9 100644
--- a/src/openclsim/io.py
+++ b/src/openclsim/io.py
@@ -200,19 +200,24 @@ def get_ranges_dataframe(simulation_object, id_map=None):
         elif len(t0) == len(t1) + 1:
             print("END missing")
             dt1 = pd.DataFrame.from_dict(
-                {"trip": [len(t0)], "TimestampStop": [None]}
-            )  # will give NaT
+                {"trip": [len(t0)], "TimestampStop": [pd.NaT]}
+            )
             t1 = pd.concat([t1, dt1], ignore_index=True)
         else:
             raise Exception("At most 1 range may be without STOP")
         s = t0.merge(t1, on="trip")
 
         s[idkey] = ActivityID
-        dt = s["TimestampStop"] - s["TimestampStart"]
+        dt = pd.to_datetime(s["TimestampStop"]) - pd.to_datetime(s["TimestampStart"])
         # powerbi gannt can only handle integer durations. so use a small unit:sec
         s["TimestampDt"] = [x.total_seconds() for x in dt]
         li.append(s)
 
+    if not li:  # nothing happened yet
+        return pd.DataFrame(
+            columns=["TimestampStart", "trip", "TimestampStop", idkey, "TimestampDt"]
+        )
+
     R = pd.concat(li)
     R = R.sort_values(by=["TimestampStart"])
 
-- 
2.43.0


From faba149b13261a60c4b8bd5283028a0615ed4a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:52 +0000
Subject: [PATCH 22/26] fix: repeat the metocean data as often as the
 simulation needs

---
 src/openclsim/plugins/weather.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/plugins/weather.py b/src/openclsim/plugins/weather.py
index e9fadaa..e713811 100644
--- a/src/openclsim/plugins/weather.py
+++ b/src/openclsim/plugins/weather.py
@@ -116,7 +116,7 @@ class WeatherPluginActivity(model.AbstractPluginClass):
         dt = 0
         filter_windows = windows[windows[:, 1] >= start_time]
         i = 1
-        while len(filter_windows) < 1 and i < 10:
+        while len(filter_windows) < 1 and len(windows) > 0 and ts_stop > ts_start:
             dt = i * (ts_stop - ts_start)
             filter_windows = windows[windows[:, 1] >= start_time - dt]
             i = i + 1
-- 
2.43.0


From bdd36e14aa264d42b2b7d683361a441165d60aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:35 +0000
Subject: [PATCH 23/26] fix: refuse dependencies between activities with a gap
 of less than a second

---
 src/openclsim/critical_path/simulation_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/critical_path/simulation_graph.py b/src/openclsim/critical_path/simulation_graph.py
index 73ba2f8..791783a 100644
--- a/src/openclsim/critical_path/simulation_graph.py
+++ b/src/openclsim/critical_path/simulation_graph.py
@@ -253,7 +253,7 @@ class SimulationGraph:
             duration = end_time - start_time
 
             if isinstance(duration, dt.timedelta):
-                duration = int(duration.total_seconds())
+                duration = duration.total_seconds()
             if not isinstance(duration, (float, int)):
                 raise TypeError(
                     f"Duration computed as type {duration} " "is not supported!"
-- 
2.43.0


From 3308f9ae2112b5d18bbfb4375ec45af23ec34c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 24/26] fix: sailing to a point takes distance over speed, not
 distance times speed

---
 src/openclsim/core/movable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index deef344..224c8ce 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -337,7 +337,7 @@ class Routable(Movable, Locatable):
         """
         linestring = shapely.geometry.LineString([self.geometry, geometry])
         distance = WGS84.geometry_length(linestring)
-        duration = self.v * distance
+        duration = distance / self.v
         yield self.env.timeout(duration)
         self.geometry = geometry
 
-- 
2.43.0


From 1e07b01cd9b1b96696dc6abcb0f8ec7d03c9738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 25/26] fix: the engine order counts once when a line is passed

---
 src/openclsim/core/movable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index 224c8ce..fef1962 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -357,7 +357,8 @@ class Routable(Movable, Locatable):
         b = shapely.geometry.Point(geometry.coords[-1])
         assert isinstance(geometry, shapely.geometry.LineString)
         distance = WGS84.geometry_length(geometry)
-        duration = distance / (self.v * self.engine_order)
+        # the speed already includes the engine order
+        duration = distance / self.v
         self.geometry = a
         yield self.env.timeout(duration)
         self.geometry = b
-- 
2.43.0


From 3a657e92e17028550dc7f2b4d888e463c49441c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:55 +0000
Subject: [PATCH 26/26] fix: sail over the route with the graph of the
 environment and the registered functions

---
 src/openclsim/core/movable.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/openclsim/core/movable.py b/src/openclsim/core/movable.py
index fef1962..ec80a53 100644
--- a/src/openclsim/core/movable.py
+++ b/src/openclsim/core/movable.py
@@ -398,16 +398,17 @@ class Routable(Movable, Locatable):
             a list of nodes that are available on the network
         """
         a = route[0]
-        a_geometry = self.graph.nodes[a]["geometry"]
+        graph = self.env.graph
+        a_geometry = graph.nodes[a]["geometry"]
         yield from self.move_to_geometry(a_geometry)
         # move self to node + geometry
         self.node = a
         self.geometry = a_geometry
 
         for i, (a, b) in enumerate(pairwise(route)):
-            a_geometry = self.graph[a]["geometry"]
-            b_geometry = self.graph[b]["geometry"]
-            edge_geometry = self.graph[(a, b)]["geometry"]
+            a_geometry = graph.nodes[a]["geometry"]
+            b_geometry = graph.nodes[b]["geometry"]
+            edge_geometry = graph.edges[(a, b)]["geometry"]
             # make sure we are in the right order
             edge_geometry = self.order_geometry(edge_geometry, a_geometry)
             # go to a (we should already be here)
@@ -416,7 +417,7 @@ class Routable(Movable, Locatable):
             # pass over the edge
             yield from self.pass_linestring(edge_geometry)
             # call any other functions we have registered
-            for pass_edge_function in self.pass_edge_function:
+            for pass_edge_function in self.on_pass_edge_functions:
                 yield pass_edge_function(
                     movable=self, a=a, b=b, route=route, geometry=edge_geometry
                 )
-- 
2.43.0

