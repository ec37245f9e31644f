From 57591892cca00f64c820b24cf29e1dfbaa5d77a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 01/57] fix: count the tasks of active sections only when
 querying the campaign progress

Indexing the task counts with the coordinate matrix selects whole rows of
the grid, so that the progress of multi-dimensional grids either exceeded
the actual one, ending the campaign early, or raised an IndexError.
---
 hermespy/core/pymonte/actors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index f330fbe..557a2d5 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -144,7 +144,7 @@ class MonteCarloQueueManager(object):
 
         return (
             (self.__num_grid_sections - self.__num_active_sections) * self.__num_samples
-            + np.sum(self.__grid_task_count[self.__active_section_coordinates])
+            + np.sum(self.__grid_task_count[self.__active_section_flags])
         ) / self.__max_num_samples, self.__active_section_flags
 
 
-- 
2.43.0


From 9cee7549bb559c4ecb65a2db2d04ab58bca36896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 02/57] fix: use one grid for scheduling, sampling and
 collecting a campaign

The workers iterate over the grid sorted by stage impact and extended by
additional dimensions, while the queue manager and the collector received the
unsorted grid without the additional dimensions. Samples were attributed to
the wrong parameters or failed to be generated at all.
---
 hermespy/core/pymonte/monte_carlo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index bc61dc6..0126275 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -358,7 +358,7 @@ class MonteCarlo(Generic[MO]):
             remote_queue_manager_class = ray.remote(MonteCarloQueueManager)
             queue_manager = remote_queue_manager_class.options(
                 num_cpus=0, enable_task_events=self.__debug
-            ).remote(self.dimensions, self.num_samples)
+            ).remote(_dimensions, self.num_samples)
 
             # Initialize actor pool
             remote_actor_class = ray.remote(actor)
@@ -368,7 +368,7 @@ class MonteCarlo(Generic[MO]):
             remote_collector_class = ray.remote(MonteCarloCollector)
             collector = remote_collector_class.options(
                 num_cpus=0, max_concurrency=2, enable_task_events=self.__debug
-            ).remote(queue_manager, actors, self.dimensions, self.evaluators)
+            ).remote(queue_manager, actors, _dimensions, self.evaluators)
 
         # Initialize progress bar
         progress = Progress(
-- 
2.43.0


From 8700ec39625596c141e727d7f906217af5e54bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 03/57] fix: wait for actors to finish and report their
 failures

The simulation collected its results as soon as all tasks had been handed out,
dropping the batches still being computed. Exceptions raised by actors were
never inspected, so that a simulation with failed actors did not terminate.
---
 hermespy/core/pymonte/monte_carlo.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index 0126275..bd617ce 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -382,11 +382,10 @@ class MonteCarlo(Generic[MO]):
         with Live(status_group, console=self.console) if self.__console_mode == ConsoleMode.INTERACTIVE else nullcontext():  # type: ignore
 
             # Start running the actors
-            for a in actors:
-                _ = a.run.remote()  # type: ignore
+            active_runs: list[ray.ObjectRef] = [a.run.remote() for a in actors]  # type: ignore
 
             # Start the collector
-            _ = collector.run.remote()  # type: ignore
+            collector_run: ray.ObjectRef = collector.run.remote()  # type: ignore
 
             # Compute parameters for displaying interemediate results
             page_counter = 0
@@ -403,6 +402,13 @@ class MonteCarlo(Generic[MO]):
 
                 sleep(self.__progress_log_interval)
 
+                # Forward exceptions of actors which terminated in the meantime
+                if len(active_runs) > 0:
+                    finished_runs, active_runs = ray.wait(
+                        active_runs, num_returns=len(active_runs), timeout=0
+                    )
+                    ray.get(finished_runs)
+
                 # Fetch a progress estimate from the queue manager
                 queue_progress, active_map = ray.get(queue_manager.query_progress.remote())  # type: ignore
 
@@ -471,8 +477,14 @@ class MonteCarlo(Generic[MO]):
         # Fetch all remote samples at the controller#
         with self.console.status("Collecting remote results ...", spinner="dots") if self.__console_mode == ConsoleMode.INTERACTIVE else nullcontext():  # type: ignore
 
+            # Wait for the actors to complete their last batches before collecting the results
+            ray.get(active_runs)
+
             evaluation_results: list[EvaluationResult] = ray.get(collector.fetch_results.remote())  # type: ignore
 
+            # Forward exceptions the collector encountered during simulation runtime
+            ray.get(collector_run)
+
         # Measure elapsed time
         stop_time = perf_counter()
         performance_time = stop_time - start_time
-- 
2.43.0


From 946a6a1e0ce4374a29c04294b40e6cd7d7e04c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 04/57] fix: stop the collector before draining the remaining
 samples

Fetching the results raced with the still running collector, so that batches
were counted twice or not at all. Samples stashed by actors after their last
query were never requested.
---
 hermespy/core/pymonte/actors.py | 40 +++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index 557a2d5..53e0f02 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 from abc import abstractmethod
+from threading import Event
 from typing import Callable, Generic, Sequence
 
 import numpy as np
@@ -174,7 +175,9 @@ class MonteCarloCollector(object):
         self.__queue_manager = queue_manager
         self.__actors = actors
         self.__results = [e.initialize_result(grid) for e in evaluators]
-        self.__active = False
+        self.__active = True
+        self.__stopped = Event()
+        self.__stopped.set()
         self.__future_map: dict[ObjectRef, MonteCarloActor] = {}
 
     def run(self) -> None:
@@ -183,19 +186,27 @@ class MonteCarloCollector(object):
         This method will block and keep running until :meth:`fetch_results` is called.
         """
 
-        self.__future_map = {a.fetch_results.remote(): a for a in self.__actors}  # type: ignore[attr-defined]
-        self.__active = True
+        self.__stopped.clear()
+        try:
+            # Do nothing if the results have already been fetched
+            if not self.__active:
+                return
 
-        while self.__active:
-            # Wait for the next sample to be available
-            ready_future = wait(list(self.__future_map.keys()), num_returns=1)[0][0]
+            self.__future_map = {a.fetch_results.remote(): a for a in self.__actors}  # type: ignore[attr-defined]
 
-            # Process the samples received from the actor
-            self.__process_samples(ready_future, True)
+            while self.__active:
+                # Wait for the next sample to be available
+                ready_future = wait(list(self.__future_map.keys()), num_returns=1)[0][0]
 
-            # Re-queue the request for the next result
-            actor = self.__future_map.pop(ready_future)
-            self.__future_map[actor.fetch_results.remote()] = actor  # type: ignore[attr-defined]
+                # Process the samples received from the actor
+                actor = self.__future_map.pop(ready_future)
+                self.__process_samples(ready_future, True)
+
+                # Re-queue the request for the next result
+                self.__future_map[actor.fetch_results.remote()] = actor  # type: ignore[attr-defined]
+
+        finally:
+            self.__stopped.set()
 
     def __process_samples(
         self,
@@ -239,13 +250,18 @@ class MonteCarloCollector(object):
         Returns: list of evaluation results from the collector run.
         """
 
-        # Stop the collector
+        # Stop the collector and wait for it to finish processing
         self.__active = False
+        self.__stopped.wait()
 
         # Process the last results within the queue
         query_futures = list(self.__future_map.keys())
+        self.__future_map = {}
         futures = wait(query_futures, num_returns=len(query_futures))[0]
 
+        # Request the results actors stashed since the last query
+        futures.extend(a.fetch_results.remote() for a in self.__actors)  # type: ignore[attr-defined]
+
         for future in futures:
             self.__process_samples(future, False)
 
-- 
2.43.0


From 8b245914464111bbb5e39280909a00d7faa75e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 05/57] fix: do not lose batches stashed while an actor's
 results are fetched

---
 hermespy/core/pymonte/actors.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index 53e0f02..54b42b4 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 from abc import abstractmethod
-from threading import Event
+from threading import Event, Lock
 from typing import Callable, Generic, Sequence
 
 import numpy as np
@@ -315,6 +315,7 @@ class MonteCarloActor(Generic[MO]):
         self.index = index
         self.__queue_manager = queue_manager
         self.__results = []
+        self.__results_lock = Lock()
         self.catch_exceptions = catch_exceptions
         self.__investigated_object = investigated_object
         self.__grid = grid
@@ -368,7 +369,9 @@ class MonteCarloActor(Generic[MO]):
             result = self.__run_batch(batch)
 
             if len(result) > 0:
-                self.__results.append(put(result))
+                reference = put(result)
+                with self.__results_lock:
+                    self.__results.append(reference)
 
     def fetch_results(self) -> list[ObjectRef[list[MonteCarloSample]]]:
         """Fetch the results of the actor run.
@@ -376,8 +379,10 @@ class MonteCarloActor(Generic[MO]):
         Returns: list of results from the actor run.
         """
 
-        results = self.__results.copy()
-        self.__results.clear()  # Clear the results after fetching
+        with self.__results_lock:
+            results = self.__results.copy()
+            self.__results.clear()  # Clear the results after fetching
+
         return results
 
     def __run_batch(self, batch: list[tuple[int, ...]]) -> list[MonteCarloSample]:
-- 
2.43.0


From 846cff662cab16500e47cf97b2bd06420fb31774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:24 +0000
Subject: [PATCH 06/57] fix: iterate over all stage arguments for every grid
 section

Stages preceding the first stage impacted by a reconfigured dimension were
skipped even if they iterate over a sequence of arguments, so that sections
following the first one of a batch were only sampled at the last argument.
---
 hermespy/core/pymonte/actors.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index 54b42b4..4114df2 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -447,6 +447,12 @@ class MonteCarloActor(Generic[MO]):
                 if last_impact <= 0:
                     last_impact = self.__num_stages - 1
 
+                # Stages iterating over multiple arguments are part of every sample
+                for s, stage_identifier in enumerate(self.__stage_identifiers):
+                    if len(self.__stage_arguments.get(stage_identifier, [])) > 1:
+                        first_impact = min(first_impact, s)
+                        last_impact = max(last_impact, s)
+
                 artifacts: list[list[Artifact]] = []
                 self.__execute_stages(first_impact, last_impact, artifacts)
 
-- 
2.43.0


From c23a0deee800e7ce1801ec8a2aff179701c45834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 07/57] fix: keep the samples of a batch if one of its sections
 fails

An exception during a single grid section discarded all samples collected
within the same batch and skipped its remaining sections. With the default
batch size, a single invalid parameter combination voided the full campaign.
---
 hermespy/core/pymonte/actors.py | 45 ++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index 4114df2..2b216bc 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -394,21 +394,25 @@ class MonteCarloActor(Generic[MO]):
         Returns: The resulting samples from the simulation run.
         """
 
-        # Catch any exception during actor running
-        try:
-            # Intially, re-configure the full grid
-            recent_section_indices = np.array(batch[0], dtype=int)
-            for sd, i in enumerate(recent_section_indices):
-                self.__grid[sd].configure_point(i)
+        # Collected samples
+        samples: list[MonteCarloSample] = []
+
+        # Grid section the investigated object is currently configured to
+        recent_section_indices: np.ndarray | None = None
 
-            # Initialize the result dictionary
-            samples: list[MonteCarloSample] = []
+        # Run through the program steps
+        for section_indices in batch:
+            section_index_array = np.asarray(section_indices, dtype=int)
 
-            # Run through the program steps
-            for section_indices in batch:
+            # Catch any exception during actor running
+            try:
+                # Intially, and after a failed step, re-configure the full grid
+                if recent_section_indices is None:
+                    for sd, i in enumerate(section_index_array):
+                        self.__grid[sd].configure_point(i)
+                    recent_section_indices = section_index_array
 
                 # Detect the grid dimensions where sections changed, i.e. which require re-configuration
-                section_index_array = np.asarray(section_indices, dtype=int)
                 reconfigured_dimensions = np.argwhere(
                     section_index_array != recent_section_indices
                 ).flatten()
@@ -464,19 +468,18 @@ class MonteCarloActor(Generic[MO]):
                 # Update the recent section for the next iteration
                 recent_section_indices = section_index_array
 
-            # Convert the samples dictionary to ray object references
-            return samples
+            except Exception as e:
+                if not self.catch_exceptions:
+                    raise UnmatchableException(
+                        f"Actor #{self.index} encountered an error during run: {e}"
+                    ) from e
 
-        # Catch any exception during actor running
-        except Exception as e:
-            if self.catch_exceptions:
                 print(e)
-            else:
-                raise UnmatchableException(
-                    f"Actor #{self.index} encountered an error during run: {e}"
-                ) from e
 
-        return []
+                # The failed step may have been configured only partially
+                recent_section_indices = None
+
+        return samples
 
     @staticmethod
     @abstractmethod
-- 
2.43.0


From 10f9f527ee9fbeb7952e0fec5be2ca25ba67921d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 08/57] fix: report the measured runtime of a campaign

---
 hermespy/core/pymonte/monte_carlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index bd617ce..c9a4863 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -491,7 +491,7 @@ class MonteCarlo(Generic[MO]):
 
         # Compute the final result
         simulation_result = MonteCarloResult(
-            _dimensions, self.__evaluators, evaluation_results, 0.0
+            _dimensions, self.__evaluators, evaluation_results, performance_time
         )
 
         # Print results
-- 
2.43.0


From f319eb804649fb02a44deec0e90350f8107f93ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:52 +0000
Subject: [PATCH 09/57] fix: sample the scenario at all drop timestamps of a
 simulation

The timestamps were assigned to a non-existing simulation stage and never
passed on, so that the configured drop interval had no effect.
---
 hermespy/simulation/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/simulation.py b/hermespy/simulation/simulation.py
index 139fe3f..56e38ec 100644
--- a/hermespy/simulation/simulation.py
+++ b/hermespy/simulation/simulation.py
@@ -421,7 +421,7 @@ class Simulation(Pipeline[SimulationScenario, SimulatedDevice], MonteCarlo[Simul
         )
         stage_arguments = dict()
         if timestamps[-1] > 0.0:
-            stage_arguments["sample_trajectories"] = [(t,) for t in timestamps]
+            stage_arguments["sample_states"] = [(t,) for t in timestamps]
 
         if self.console_mode != ConsoleMode.SILENT:
             self.console.log(
@@ -429,7 +429,7 @@ class Simulation(Pipeline[SimulationScenario, SimulatedDevice], MonteCarlo[Simul
             )
 
         # Generate simulation result
-        result = self.simulate(SimulationActor)
+        result = self.simulate(SimulationActor, stage_arguments=stage_arguments)
 
         # Visualize results if the flag respective is enabled
         visualizations: Sequence[Visualization] = []
-- 
2.43.0


From 3bff4ac7f698966b1c5e5696a4e42179deb54e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 10/57] fix: print the rows of evaluation results

---
 hermespy/core/pymonte/evaluation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermespy/core/pymonte/evaluation.py b/hermespy/core/pymonte/evaluation.py
index a1635f0..d919ef7 100644
--- a/hermespy/core/pymonte/evaluation.py
+++ b/hermespy/core/pymonte/evaluation.py
@@ -198,6 +198,7 @@ class EvaluationResult(Generic[AT], Visualizable[PlotVisualization], ABC):
         for grid_section in np.ndindex(*[d.num_sample_points for d in self.grid]):
             columns = [g.sample_points[s].title for s, g in zip(grid_section, self.grid)]
             columns.append(self.to_str(grid_section))
+            table.add_row(*columns)
 
         _console.print(table)
 
-- 
2.43.0


From cb577d63fb08befe8b7135b64fb2976e25e1c80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 11/57] fix: export the parameter values of campaign results to
 Matlab

Sample points were stored as opaque objects, so that the exported results
could not be attributed to the parameters they were generated with.
---
 hermespy/core/pymonte/monte_carlo.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index c9a4863..2a1dc7c 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -99,8 +99,14 @@ class MonteCarloResult(object):
         for r, result in enumerate(self.__results):
             mat_dict[f"result_{r}"] = result.to_array()
 
+        # Append sample point values, resorting to their titles if they are not representable in Matlab
         for dimension in self.__grid:
-            mat_dict[dimension.title] = dimension.sample_points
+            values = [point.value for point in dimension.sample_points]
+            mat_dict[dimension.title] = (
+                values
+                if all(isinstance(v, (int, float, complex, np.number)) for v in values)
+                else [point.title for point in dimension.sample_points]
+            )
 
         # Save results in matlab file
         savemat(file, mat_dict)
-- 
2.43.0


From 96c4eb1e9b83be02eed56b2a6eeb8c3b4f335c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 12/57] fix: keep serialized instances alive while their
 identifiers are cached

---
 hermespy/core/factory.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index d1eb6e7..e23bbf8 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -840,16 +840,18 @@ class HDFSerializationProcess(SerializationProcess):
 
     __base_group: Group
     __group: Group
-    __arrays: MutableMapping[int, np.ndarray]
-    __objects: MutableMapping[int, str]  # Mapping of serialized objects to their HDF5 paths
+    # Mapping of serialized arrays and objects to their HDF5 paths.
+    # The referenced instances are kept alive, since their identifiers may be reused otherwise.
+    __arrays: MutableMapping[int, tuple[np.ndarray, str]]
+    __objects: MutableMapping[int, tuple[Serializable, str]]
 
     def __init__(
         self,
         tag_registry: Mapping[str, Type[Serializable]],
         base_group: Group,
         group: Group,
-        arrays: MutableMapping[int, np.ndarray],
-        objects: MutableMapping[int, str],
+        arrays: MutableMapping[int, tuple[np.ndarray, str]],
+        objects: MutableMapping[int, tuple[Serializable, str]],
     ) -> None:
         # Init base class
         SerializationProcess.__init__(self, tag_registry)
@@ -893,13 +895,13 @@ class HDFSerializationProcess(SerializationProcess):
 
         # If the array has already been serialized, just create a soft link to it
         if cache and uid in self.__arrays:
-            self.__group[name] = SoftLink(self.__arrays[uid])
+            self.__group[name] = SoftLink(self.__arrays[uid][1])
             return
 
         # Write the array to the group and record its exact location to the object cache
         new = self.__group.create_dataset(name, array.shape, array.dtype, array)
         if cache:
-            self.__arrays[uid] = new.name
+            self.__arrays[uid] = (array, new.name)
 
     @override
     def serialize_floating(self, value: float, name: str) -> None:
@@ -934,16 +936,16 @@ class HDFSerializationProcess(SerializationProcess):
         obj_key: int = id(obj)
 
         # If the object has already been serialized, just create a soft link to it
-        obj_path = self.__objects.get(obj_key, None)
-        if obj_path is not None:
-            self.__group[name] = SoftLink(obj_path)
+        cached_obj = self.__objects.get(obj_key, None)
+        if cached_obj is not None:
+            self.__group[name] = SoftLink(cached_obj[1])
             return
 
         # Create a new group for the object
         new_group = self._create_group(self.__group, name)
 
         # Save the object's path for future reference
-        self.__objects[obj_key] = new_group.name
+        self.__objects[obj_key] = (obj, new_group.name)
 
         # Create a new serialization process
         process = HDFSerializationProcess(
-- 
2.43.0


From 500b33f23487e5190021a6de6a94f18a6b97ab5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 13/57] fix: deserialize multipath fading realizations

---
 hermespy/channel/fading/fading.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index befbf8a..eb9a1d1 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -563,10 +563,17 @@ class MultipathFadingRealization(ChannelRealization[MultipathFadingSample]):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> MultipathFadingRealization:
+        # The line of sight angles are either a constant or a random variable
+        los_angle: float | None = process.deserialize_floating("los_angles_variable", None)
+
         return MultipathFadingRealization(
             process.deserialize_object("random_realization", ConsistentRealization),
             process.deserialize_object("antenna_correlation_variable", ConsistentUniform),
-            process.deserialize_object("los_angles_variable", ConsistentUniform),
+            (
+                process.deserialize_object("los_angles_variable", ConsistentUniform)
+                if los_angle is None
+                else los_angle
+            ),
             process.deserialize_object("path_angles_variable", ConsistentUniform),
             process.deserialize_object("los_phases_variable", ConsistentUniform),
             process.deserialize_object("path_phases_variable", ConsistentUniform),
@@ -578,7 +585,7 @@ class MultipathFadingRealization(ChannelRealization[MultipathFadingSample]):
             process.deserialize_floating("nlos_doppler"),
             process.deserialize_object("antenna_correlation", AntennaCorrelation, None),
             set(),
-            **Channel._DeserializeParameters(process),  # type: ignore[arg-type]
+            **ChannelRealization._DeserializeParameters(process),  # type: ignore[arg-type]
         )
 
 
-- 
2.43.0


From 47eec67ebd3d94bbb4a006f2740d9db23af4edb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 14/57] fix: register the realizations of delay channels for
 serialization

---
 hermespy/channel/__init__.py       |  9 ++++++++-
 hermespy/channel/delay/__init__.py | 11 ++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/hermespy/channel/__init__.py b/hermespy/channel/__init__.py
index 747b77c..ac614ff 100644
--- a/hermespy/channel/__init__.py
+++ b/hermespy/channel/__init__.py
@@ -30,7 +30,12 @@ from .cdl import (
     UrbanMicrocells,
     UrbanMicrocellsRealization,
 )
-from .delay import SpatialDelayChannel, RandomDelayChannel
+from .delay import (
+    SpatialDelayChannel,
+    SpatialDelayChannelRealization,
+    RandomDelayChannel,
+    RandomDelayChannelRealization,
+)
 from .fading import (
     DeviceType,
     CorrelationType,
@@ -77,7 +82,9 @@ __all__ = [
     "CRT",
     "LinkState",
     "SpatialDelayChannel",
+    "SpatialDelayChannelRealization",
     "RandomDelayChannel",
+    "RandomDelayChannelRealization",
     "DeviceType",
     "CorrelationType",
     "StandardAntennaCorrelation",
diff --git a/hermespy/channel/delay/__init__.py b/hermespy/channel/delay/__init__.py
index d49a64e..3677259 100644
--- a/hermespy/channel/delay/__init__.py
+++ b/hermespy/channel/delay/__init__.py
@@ -1,7 +1,7 @@
 # -*- coding: utf-8 -*-
 
-from .random import RandomDelayChannel
-from .spatial import SpatialDelayChannel
+from .random import RandomDelayChannel, RandomDelayChannelRealization
+from .spatial import SpatialDelayChannel, SpatialDelayChannelRealization
 
 __author__ = "Jan Adler"
 __copyright__ = "Copyright 2026, Barkhausen Institut gGmbH"
@@ -13,4 +13,9 @@ __email__ = "jan.adler@barkhauseninstitut.org"
 __status__ = "Prototype"
 
 
-__all__ = ["RandomDelayChannel", "SpatialDelayChannel"]
+__all__ = [
+    "RandomDelayChannel",
+    "RandomDelayChannelRealization",
+    "SpatialDelayChannel",
+    "SpatialDelayChannelRealization",
+]
-- 
2.43.0


From f8f5f9abe3040b28c11e1ad4d3d5cada58f08a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 15/57] fix: restore the channel realizations of recorded drops

---
 hermespy/simulation/drop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/simulation/drop.py b/hermespy/simulation/drop.py
index 84750e5..7caa23e 100644
--- a/hermespy/simulation/drop.py
+++ b/hermespy/simulation/drop.py
@@ -59,7 +59,7 @@ class SimulatedDrop(Drop[SimulatedDeviceTransmission, SimulatedDeviceReception])
     def Deserialize(cls: Type[SimulatedDrop], process: DeserializationProcess) -> SimulatedDrop:
         drop = Drop.Deserialize(process)
         channel_realizations = process.deserialize_object_sequence(
-            "channel_realiations", ChannelRealization
+            "channel_realizations", ChannelRealization
         )
         return SimulatedDrop(
             drop.timestamp, drop.device_transmissions, channel_realizations, drop.device_receptions
-- 
2.43.0


From 2962421ab1694adca2258e74729019faf9615f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 16/57] fix: discard partially serialized objects

---
 hermespy/core/factory.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index e23bbf8..7e46252 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -952,12 +952,19 @@ class HDFSerializationProcess(SerializationProcess):
             self._tag_registry, self.__base_group, new_group, self.__arrays, self.__objects
         )
 
-        # Serialize the object
-        obj.serialize(process)
+        try:
+            # Serialize the object
+            obj.serialize(process)
+
+            # Write the object's tag to the group
+            # Warning: This MUST be done after calling the serialize method for improved security
+            new_group.attrs.create("type", type, dtype=string_dtype(encoding="utf-8"))
 
-        # Write the object's tag to the group
-        # Warning: This MUST be done after calling the serialize method for improved security
-        new_group.attrs.create("type", type, dtype=string_dtype(encoding="utf-8"))
+        except BaseException:
+            # Don't leave a partially serialized object behind
+            self.__objects.pop(obj_key, None)
+            del self.__group[name]
+            raise
 
     @override
     def serialize_object_sequence(
-- 
2.43.0


From 054dfafea2dd45dcfe757d041d4a945be62dde47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 17/57] fix: close the files of recorded campaigns

---
 hermespy/core/factory.py  | 10 ++++++----
 hermespy/core/scenario.py |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index 7e46252..897c863 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -1011,8 +1011,9 @@ class HDFSerializationProcess(SerializationProcess):
     @override
     def finalize(self) -> None:
         # Close the base file handle
-        if isinstance(self.__base_group, File):
-            self.__base_group.close()
+        # Note that the base group is not the file itself if a campaign was specified
+        if self.__base_group:
+            self.__base_group.file.close()
 
     @staticmethod
     def _create_group(group: Group, name: str) -> Group:
@@ -1246,5 +1247,6 @@ class HDFDeserializationProcess(DeserializationProcess):
     @override
     def finalize(self) -> None:
         # Close the base file handle
-        if isinstance(self.__base_group, File):
-            self.__base_group.close()
+        # Note that the base group is not the file itself if a campaign was specified
+        if self.__base_group:
+            self.__base_group.file.close()
diff --git a/hermespy/core/scenario.py b/hermespy/core/scenario.py
index 45de99d..9e6df10 100644
--- a/hermespy/core/scenario.py
+++ b/hermespy/core/scenario.py
@@ -487,6 +487,7 @@ class Scenario(
         # Get the overall number of drops
         num_available_drops = deserialization_process.sequence_length("drops")
         if drop_offset >= num_available_drops:
+            deserialization_process.finalize()
             raise ValueError("Drop offset is not smaller than the number of available drops")
 
         # Stop any action and close file handles if required
-- 
2.43.0


From f51d3b10797360e80ae726c4f9292b5f217698bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 18/57] fix: leave the scenario in default mode if a recording
 can't be started

---
 hermespy/core/scenario.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/hermespy/core/scenario.py b/hermespy/core/scenario.py
index 9e6df10..e2dfc4e 100644
--- a/hermespy/core/scenario.py
+++ b/hermespy/core/scenario.py
@@ -413,6 +413,10 @@ class Scenario(
                 "Initialize a recording is only possible in default mode. Please stop before starting a new recording."
             )
 
+        # Update the campaign identifier
+        # Invalid identifiers must be rejected before anything is written to the filesystem
+        self.campaign = campaign
+
         # Check wether the specified file already exists within the filesystem
         file_exists = path.exists(file)
 
@@ -427,17 +431,20 @@ class Scenario(
 
         # Serialize the scenario's state, i.e. the device and operator configurations
         if serialize_state:
-            self.__serialization_process.serialize_object(
-                self if state is None else state, "state", True
-            )
+            try:
+                self.__serialization_process.serialize_object(
+                    self if state is None else state, "state", True
+                )
+
+            except BaseException:
+                # Close the file if the recording can't be started
+                self.stop()
+                raise
 
         # Switch mode flag and reset the drop counter
         self.__mode = ScenarioMode.RECORD
         self.__drop_counter = 0
 
-        # Create the campaign if it doesn't exists
-        self.campaign = campaign
-
     def replay(
         self,
         file: str | None = None,
-- 
2.43.0


From 83544158ecb7647cf2caf40856a4274cab081885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 19/57] fix: serialize integer and list range values

---
 hermespy/core/factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index 897c863..a7eaacc 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -487,13 +487,13 @@ class SerializationProcess(ProcessBase):
             return
 
         # Serialize the range value
-        if isinstance(value, tuple):
+        if isinstance(value, (tuple, list)):
             self.serialize_floating(value[0], f"{name}_min")
             self.serialize_floating(value[1], f"{name}_max")
 
         # Serialize the scalar value
-        elif isinstance(value, (float, np.float64)):
-            self.serialize_floating(value, name)
+        elif isinstance(value, (float, int, np.floating, np.integer)):
+            self.serialize_floating(float(value), name)
 
         else:
             raise ValueError("Invalid range value type")
-- 
2.43.0


From 52d8a907e0c6708a3825459a8b91af7269f54178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 20/57] fix: deserialize single target radar realizations
 without target

---
 hermespy/channel/radar/single.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hermespy/channel/radar/single.py b/hermespy/channel/radar/single.py
index 8432864..edb6ecc 100644
--- a/hermespy/channel/radar/single.py
+++ b/hermespy/channel/radar/single.py
@@ -159,9 +159,11 @@ class SingleTargetRadarChannelRealization(RadarChannelRealization):
     @override
     def Deserialize(cls, process: DeserializationProcess) -> SingleTargetRadarChannelRealization:
         target_velocity = process.deserialize_array("target_velocity", np.float64).flatten()
-        _target_velocity: float | tuple[float, float]
+        _target_velocity: float | tuple[float, float] | np.ndarray
         if len(target_velocity) == 1:
             _target_velocity = float(target_velocity[0])
+        elif len(target_velocity) == 3:
+            _target_velocity = target_velocity
         else:
             _target_velocity = (float(target_velocity[0]), float(target_velocity[1]))
         return SingleTargetRadarChannelRealization(
@@ -171,7 +173,7 @@ class SingleTargetRadarChannelRealization(RadarChannelRealization):
             process.deserialize_object("target_zenith_variable", ConsistentUniform),
             process.deserialize_object("target_velocity_variable", ConsistentUniform),
             process.deserialize_object("target_phase_variable", ConsistentUniform),
-            process.deserialize_range("target_range"),
+            process.deserialize_range("target_range", None),
             process.deserialize_range("target_azimuth"),
             process.deserialize_range("target_zenith"),
             process.deserialize_floating("target_cross_section"),
-- 
2.43.0


From 0435379c9f4a42b8203c87758783edb04ae4eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 21/57] fix: do not alter signals superimposed onto empty
 signals

---
 hermespy/core/signal_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 9cc47e1..982012b 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1454,9 +1454,10 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
         if stream_indices is None:
             stream_indices = slice(None)
 
-        # If this signal is empty, simply return the added signal
+        # If this signal is empty, simply return a copy of the added signal
+        # The copy ensures that further superpositions do not alter the added signal
         if self.size < 1:
-            return added_signal
+            return added_signal.copy()
 
         # Resample the added signal to the target sampling rate
         if added_signal.sampling_rate != self.sampling_rate:
-- 
2.43.0


From c579af20e9ffef438292d77c7017e0e5cd21cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 22/57] fix: close files of deserializations that can't be
 started

---
 hermespy/core/factory.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index a7eaacc..eb0d0f1 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -327,9 +327,15 @@ class Factory:
         """
 
         if backend == SerializationBackend.HDF:
-            return HDFDeserializationProcess.New(
-                self.tag_registry, File(target, mode="r"), campaign
-            )
+            file = File(target, mode="r")
+
+            try:
+                return HDFDeserializationProcess.New(self.tag_registry, file, campaign)
+
+            except BaseException:
+                # Don't leave the file opened if the process can't be started
+                file.close()
+                raise
 
         else:
             raise RuntimeError(f"Unsupported serialization backend '{backend}'")
-- 
2.43.0


From d8f922ad7a676768210eafa1cccb2512cf5e13a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:29 +0000
Subject: [PATCH 23/57] fix: keep the replayed drop if assigning the campaign
 is rejected

---
 hermespy/core/scenario.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hermespy/core/scenario.py b/hermespy/core/scenario.py
index e2dfc4e..5b75e50 100644
--- a/hermespy/core/scenario.py
+++ b/hermespy/core/scenario.py
@@ -337,15 +337,15 @@ class Scenario(
         if value == self.__campaign:
             return
 
-        # Setting the campaign will always reset the internal drop counter
-        self.__drop_counter = 0
-
         # When in replay mode, changing the campaign changes the number of replayed drops
         if self.mode == ScenarioMode.REPLAY:
             raise NotImplementedError(
                 "Changing the campaign name during replay is currently not supported"
             )
 
+        # Setting the campaign will always reset the internal drop counter
+        self.__drop_counter = 0
+
         # Update the campaign identifier
         self.__campaign = value
 
-- 
2.43.0


From c99689812d598e05db5a9d65bc79fff2402a6dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:02 +0000
Subject: [PATCH 24/57] fix: serialize the DC suppression of OFDM waveforms

---
 hermespy/modem/waveforms/orthogonal/ofdm.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/waveforms/orthogonal/ofdm.py b/hermespy/modem/waveforms/orthogonal/ofdm.py
index 7a83659..a74a691 100644
--- a/hermespy/modem/waveforms/orthogonal/ofdm.py
+++ b/hermespy/modem/waveforms/orthogonal/ofdm.py
@@ -9,7 +9,7 @@ import numpy as np
 from scipy.fft import fft, fftfreq, fftshift, ifft, ifftshift
 from scipy.signal import find_peaks
 
-from hermespy.core import Serializable, SerializationProcess
+from hermespy.core import DeserializationProcess, Serializable, SerializationProcess
 from ...waveform import Synchronization
 from ...waveform_correlation_synchronization import CorrelationSynchronization
 from .waveform import (
@@ -179,6 +179,14 @@ class OFDMWaveform(OrthogonalWaveform, Serializable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         OrthogonalWaveform.serialize(self, process)
+        process.serialize_integer(self.dc_suppression, "dc_suppression")
+
+    @classmethod
+    @override
+    def _DeserializeParameters(cls, process: DeserializationProcess) -> dict[str, Any]:
+        params = OrthogonalWaveform._DeserializeParameters(process)
+        params["dc_suppression"] = bool(process.deserialize_integer("dc_suppression", 1))
+        return params
 
 
 class SchmidlCoxPilotSection(PilotSection[OFDMWaveform]):
-- 
2.43.0


From 36196471ff69cb8bd15dfd6c42c318c9fd6fc52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 25/57] fix: leave record and replay mode even if closing the
 file fails

---
 hermespy/core/scenario.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/hermespy/core/scenario.py b/hermespy/core/scenario.py
index 5b75e50..c358ff1 100644
--- a/hermespy/core/scenario.py
+++ b/hermespy/core/scenario.py
@@ -498,7 +498,12 @@ class Scenario(
             raise ValueError("Drop offset is not smaller than the number of available drops")
 
         # Stop any action and close file handles if required
-        self.stop()
+        try:
+            self.stop()
+
+        except BaseException:
+            deserialization_process.finalize()
+            raise
 
         self.__deserialization_process = deserialization_process
         self.__replay_file = _file
@@ -558,20 +563,21 @@ class Scenario(
     def stop(self) -> None:
         """Stop a running recording / playback session."""
 
-        # Finalize the serialization process if in record mode
-        if self.__serialization_process is not None:
-            self.__serialization_process.finalize()
-            self.__serialization_process = None
-            self.__drop_counter = 0
+        try:
+            # Finalize the serialization process if in record mode
+            if self.__serialization_process is not None:
+                self.__serialization_process.finalize()
 
-        # Finalize the deserialization process if in replay mode
-        if self.__deserialization_process is not None:
-            self.__deserialization_process.finalize()
-            self.__deserialization_process = None
-            self.__drop_counter = 0
+            # Finalize the deserialization process if in replay mode
+            if self.__deserialization_process is not None:
+                self.__deserialization_process.finalize()
 
-        # Reset the mode
-        self.__mode = ScenarioMode.DEFAULT
+        finally:
+            # Reset the mode, even if the files could not be closed properly
+            self.__drop_counter = 0
+            self.__serialization_process = None
+            self.__deserialization_process = None
+            self.__mode = ScenarioMode.DEFAULT
 
     def transmit_operators(
         self, states: Sequence[DST] = None, notify: bool = True
-- 
2.43.0


From 60737eff691515f68ba3f30555186f2275c115cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 26/57] fix: close files of serializations that can't be
 started

---
 hermespy/core/factory.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/factory.py b/hermespy/core/factory.py
index eb0d0f1..ac6beeb 100644
--- a/hermespy/core/factory.py
+++ b/hermespy/core/factory.py
@@ -298,7 +298,15 @@ class Factory:
         """
 
         if backend == SerializationBackend.HDF:
-            return HDFSerializationProcess.New(self.tag_registry, File(target, mode="a"), campaign)
+            file = File(target, mode="a")
+
+            try:
+                return HDFSerializationProcess.New(self.tag_registry, file, campaign)
+
+            except BaseException:
+                # Don't leave the file opened if the process can't be started
+                file.close()
+                raise
 
         raise RuntimeError(f"Unsupported serialization backend '{backend}'")
 
-- 
2.43.0


From 33289311dd7f3b25a56882f36343e34a4d1a512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 27/57] fix: link operators to the random graph of their device

---
 hermespy/core/device.py      |  3 +++
 hermespy/core/random_node.py | 23 ++++++++++++++++++++++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index b8ec5e7..5c74972 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -818,6 +818,9 @@ class DSPSlot(Generic[DSPType], Sequence[DSPType]):
 
         self.__dsp_algorithms.append(operator)
 
+        # Link the operator to the device's random graph
+        self.__device._own(operator)
+
     def remove(self, operator: DSPType) -> None:
         """Remove an operator from this slot.
 
diff --git a/hermespy/core/random_node.py b/hermespy/core/random_node.py
index 4447dd5..0d94796 100644
--- a/hermespy/core/random_node.py
+++ b/hermespy/core/random_node.py
@@ -68,6 +68,7 @@ class RandomNode(object):
     """Random Node within a random dependency graph."""
 
     __mother_node: RandomNode | None  # Mother node of this node
+    __owner: RandomNode | None = None  # Node providing the default generator of this node
     __generator: Generator | None  # Numpy generator object
     __seed: int | None
 
@@ -90,7 +91,8 @@ class RandomNode(object):
     def _rng(self) -> Generator:
         """Random number generator.
 
-        If this random node is a root node, it will return this node's generator.
+        If this random node is a root node, it will return this node's generator,
+        or the generator of the node owning it if no individual seed has been configured.
         Otherwise, the generator of the mother's node will be returned.
 
         Returns:
@@ -98,6 +100,10 @@ class RandomNode(object):
         """
 
         if self.is_random_root:
+            # Root nodes without individual seed draw from their owner's generator
+            if self.__owner is not None and self.__seed is None:
+                return self.__owner._rng
+
             return self.__generator
 
         return self.random_mother._rng
@@ -105,6 +111,7 @@ class RandomNode(object):
     @_rng.setter
     def _rng(self, value: Generator) -> None:
         self.__generator = value
+        self.__owner = None
 
     @property
     def is_random_root(self) -> bool:
@@ -149,3 +156,17 @@ class RandomNode(object):
 
         self.__generator = default_rng(self.seed) if value is None else None
         self.__mother_node = value
+        self.__owner = None
+
+    def _own(self, node: object) -> None:
+        """Let another object draw from this node's random number generator by default.
+
+        Does not affect objects that are no random nodes, random nodes configured to an individual
+        random seed and random nodes configured to a mother node.
+
+        Args:
+            node: The object to be owned.
+        """
+
+        if isinstance(node, RandomNode):
+            node.__owner = self
-- 
2.43.0


From 0c87de66e125f3489de6d04b0a13c1a3dbf3b260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 28/57] fix: link radio-frequency blocks to the random graph of
 their chain

---
 hermespy/simulation/rf/chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index 69bb7bb..10362b6 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -414,6 +414,9 @@ class RFChain(RandomNode, Serializable):
         block_reference = RFBlockReference(block)
         self.__block_references.append(block_reference)
 
+        # Link the block to the chain's random graph
+        self._own(block)
+
         # Add blocks without RF input ports to the origin blocks list
         if block.num_input_ports < 1:
             self.__rf_origin_blocks.append(block_reference)
-- 
2.43.0


From 3f416150ce7ab18d2ac8f4c63d4d0c28e102aa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 29/57] fix: link encoders to the random graph of their coding
 pipeline

---
 hermespy/fec/coding.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index 7242f9f..c7923c6 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -205,6 +205,9 @@ class EncoderManager(RandomNode, Serializable):
         if hasattr(encoder, "manager"):
             encoder.manager = self
 
+        # Link the encoder to the pipeline's random graph
+        self._own(encoder)
+
         # Add new encoder to the queue of configured encoders
         self._encoders.append(encoder)
         self._encoders = self.__execution_order()
-- 
2.43.0


From 34da10c259f111c2593f696d8fb14a7ac3f8f783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:24 +0000
Subject: [PATCH 30/57] fix: reset scramblers for each coded stream of bits

---
 hermespy/fec/coding.py    | 14 ++++++++++++++
 hermespy/fec/scrambler.py |  9 +++++++++
 2 files changed, 23 insertions(+)

diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index c7923c6..4b58352 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -79,6 +79,14 @@ class Encoder(ABC, Serializable):
     def enabled(self, value: bool) -> None:
         self.__enabled = value
 
+    def reset(self) -> None:
+        """Reset the internal state of the encoder.
+
+        Called by the coding pipeline before encoding or decoding a stream of bits.
+        Does nothing by default, should be overwritten by encoders with an internal state.
+        """
+        return
+
     @abstractmethod
     def encode(self, bits: np.ndarray) -> np.ndarray:
         """Encodes a single block of bits.
@@ -249,6 +257,9 @@ class EncoderManager(RandomNode, Serializable):
             if not encoder.enabled:
                 continue
 
+            # Each stream of bits is encoded independently of the previous ones
+            encoder.reset()
+
             data_block_size = encoder.bit_block_size
             code_block_size = encoder.code_block_size
 
@@ -346,6 +357,9 @@ class EncoderManager(RandomNode, Serializable):
             if not encoder.enabled:
                 continue
 
+            # Each stream of bits is decoded independently of the previous ones
+            encoder.reset()
+
             code_block_size = encoder.code_block_size
             data_block_size = encoder.bit_block_size
 
diff --git a/hermespy/fec/scrambler.py b/hermespy/fec/scrambler.py
index 1ecda1c..b11324a 100644
--- a/hermespy/fec/scrambler.py
+++ b/hermespy/fec/scrambler.py
@@ -154,6 +154,11 @@ class Scrambler3GPP(Encoder, Serializable):
         self.__transmit_rng = PseudoRandomGenerator(seed)
         self.__receive_rng = PseudoRandomGenerator(seed)
 
+    @override
+    def reset(self) -> None:
+        self.__transmit_rng.reset()
+        self.__receive_rng.reset()
+
     def encode(self, data: np.ndarray) -> np.ndarray:
         codeword = self.__transmit_rng.generate_sequence(data.shape[0])
         code = (data + codeword) % 2
@@ -240,6 +245,10 @@ class Scrambler80211a(Encoder, Serializable):
         self.__seed = value
         self.__queue = deque(self.__seed, 7)
 
+    @override
+    def reset(self) -> None:
+        self.__queue = deque(self.__seed, 7)
+
     def encode(self, data: np.ndarray) -> np.ndarray:
         code = np.array([self.__scramble_bit(bit) for bit in data], dtype=int)
         return code
-- 
2.43.0


From 41ef2c6d1f04dc20fb0b7838ae0a683c78817f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 31/57] fix: do not add the encoders of coding pipelines
 repeatedly

---
 hermespy/modem/modem.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index 5046aed..2587875 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -541,8 +541,7 @@ class BaseModem(Generic[CWT], RandomNode, Serializable):
             self.encoder_manager = encoding
         else:
             self.encoder_manager = EncoderManager()
-        if encoding is not None:
-            for encoder in encoding.encoders if isinstance(encoding, EncoderManager) else encoding:
+            for encoder in encoding if encoding is not None else []:
                 self.encoder_manager.add_encoder(encoder)
 
         # Initialize the remaining attributes
-- 
2.43.0


From eb1d8d2d31c1d7aa57cd944049718ace8249670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:23 +0000
Subject: [PATCH 32/57] fix: consider radar targets in the order they were
 added

---
 hermespy/channel/radar/multi.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/hermespy/channel/radar/multi.py b/hermespy/channel/radar/multi.py
index 5c642cf..918762b 100644
--- a/hermespy/channel/radar/multi.py
+++ b/hermespy/channel/radar/multi.py
@@ -2,7 +2,7 @@
 
 from __future__ import annotations
 from abc import abstractmethod
-from typing import List, Set, Sequence
+from typing import AbstractSet, Collection, List, Set, Sequence
 from typing_extensions import override
 
 import numpy as np
@@ -332,7 +332,7 @@ class MultiTargetRadarChannelRealization(RadarChannelRealization):
 
     __consistent_realization: ConsistentRealization
     __phase_variable: ConsistentUniform
-    __targets: Set[RadarTarget]
+    __targets: Collection[RadarTarget]
     __interference: bool
     __attenuate: bool
 
@@ -340,7 +340,7 @@ class MultiTargetRadarChannelRealization(RadarChannelRealization):
         self,
         consistent_realization: ConsistentRealization,
         phase_variable: ConsistentUniform,
-        targets: Set[RadarTarget],
+        targets: Collection[RadarTarget],
         interference: bool,
         attenuate: bool,
         sample_hooks: Set[ChannelSampleHook[RadarChannelSample]],
@@ -448,7 +448,7 @@ class MultiTargetRadarChannelRealization(RadarChannelRealization):
         return cls(
             process.deserialize_object("consistent_realization", ConsistentRealization),
             process.deserialize_object("phase_variable", ConsistentUniform),
-            set(process.deserialize_object_sequence("targets", RadarTarget)),
+            process.deserialize_object_sequence("targets", RadarTarget),
             bool(process.deserialize_integer("interference")),
             bool(process.deserialize_integer("attenuate")),
             set(),
@@ -465,7 +465,7 @@ class MultiTargetRadarChannel(RadarChannelBase[MultiTargetRadarChannelRealizatio
     Only applies in the bistatic case, where transmitter and receiver are two dedicated device instances.
     """
 
-    __targets: Set[RadarTarget]
+    __targets: dict[RadarTarget, None]  # Insertion-ordered set of targets
 
     def __init__(
         self,
@@ -504,7 +504,7 @@ class MultiTargetRadarChannel(RadarChannelBase[MultiTargetRadarChannelRealizatio
         # Initialize attributes
         self.interference = interference
         self.decorrelation_distance = decorrelation_distance
-        self.__targets = set()
+        self.__targets = dict()
 
         self.__consistent_generator = ConsistentGenerator(self)
         self.__phase_variable = self.__consistent_generator.uniform()
@@ -528,10 +528,10 @@ class MultiTargetRadarChannel(RadarChannelBase[MultiTargetRadarChannelRealizatio
         self.__decorrelation_distance = value
 
     @property
-    def targets(self) -> Set[RadarTarget]:
+    def targets(self) -> AbstractSet[RadarTarget]:
         """Set of targets considered within the radar channel."""
 
-        return self.__targets
+        return self.__targets.keys()
 
     def add_target(self, target: RadarTarget) -> None:
         """Add a new target to the radar channel.
@@ -543,7 +543,7 @@ class MultiTargetRadarChannel(RadarChannelBase[MultiTargetRadarChannelRealizatio
         """
 
         if target not in self.targets:
-            self.__targets.add(target)
+            self.__targets[target] = None
 
     def make_target(
         self, moveable: Moveable, cross_section: RadarCrossSectionModel, *args, **kwargs
@@ -578,7 +578,7 @@ class MultiTargetRadarChannel(RadarChannelBase[MultiTargetRadarChannelRealizatio
         return MultiTargetRadarChannelRealization(
             self.__consistent_generator.realize(self.decorrelation_distance),
             self.__phase_variable,
-            self.targets,
+            tuple(self.__targets),
             self.interference,
             self.attenuate,
             self.sample_hooks,
-- 
2.43.0


From 33c9e9770d3a5861487a38153161b9058b1afec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 33/57] fix: noise parameters impact the processing of device
 inputs

---
 hermespy/simulation/scenario.py         | 4 ++--
 hermespy/simulation/simulated_device.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index b7bd098..5676416 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -363,7 +363,7 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
 
         return [channel.realize() for channel in self.channels]
 
-    @register(first_impact="receive_devices", title="Scenario Noise Level")  # type: ignore
+    @register(first_impact="process_inputs", title="Scenario Noise Level")  # type: ignore
     @property
     def noise_level(self) -> NoiseLevel | None:
         """Global noise level of the scenario.
@@ -377,7 +377,7 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
     def noise_level(self, value: NoiseLevel | None) -> None:
         self.__noise_level = value
 
-    @register(first_impact="receive_devices", title="Noise Model")  # type: ignore
+    @register(first_impact="process_inputs", title="Noise Model")  # type: ignore
     @property
     def noise_model(self) -> NoiseModel | None:
         """Global noise model of the scenario.
diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 40b4f87..b7a8918 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -1346,7 +1346,7 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
 
         return self.__scenario is not None
 
-    @register(first_impact="receive_devices", title="Device Noise Level")  # type: ignore
+    @register(first_impact="process_inputs", title="Device Noise Level")  # type: ignore
     @property
     def noise_level(self) -> NoiseLevel:
         """Level of the simulated hardware noise."""
@@ -1357,7 +1357,7 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
     def noise_level(self, value: NoiseLevel) -> None:
         self.__noise_level = value
 
-    @register(first_impact="receive_devices", title="Device Noise Model")  # type: ignore
+    @register(first_impact="process_inputs", title="Device Noise Model")  # type: ignore
     @property
     def noise_model(self) -> NoiseModel:
         """Model of the simulated hardware noise."""
@@ -1369,7 +1369,7 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
         self.__noise_model = value
         self.__noise_model.random_mother = self
 
-    # @register(first_impact="receive_devices", title="Device Noise Level")  # type: ignore
+    # @register(first_impact="process_inputs", title="Device Noise Level")  # type: ignore
     @property
     def noise(self) -> float:
         """Shorthand property for accessing the noise level of the device.
-- 
2.43.0


From 1deb9b3bb9edbccd85f0dcf0da44680b4624400a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:52 +0000
Subject: [PATCH 34/57] fix: do not shift the blocks of superimposed signals

---
 hermespy/core/signal_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 982012b..5623502 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -2380,8 +2380,9 @@ class SparseSignal(Signal):
             num_delay_samples = int(
                 round((added_signal.delay - self.delay) * added_signal.sampling_rate)
             )
-            added_blocks = added_signal.blocks
             if interpolation is InterpolationMode.NEAREST:
+                # Shift views, so that the added signal remains unaltered
+                added_blocks = [b.view(SignalBlock) for b in added_signal.blocks]
                 for b in added_blocks:
                     b.offset += num_delay_samples
 
-- 
2.43.0


From c744479a4f15257fbe3334bb1804f81b0afd6dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 35/57] fix: stop the scenario if a hardware loop run is
 aborted

---
 hermespy/hardware_loop/hardware_loop.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hermespy/hardware_loop/hardware_loop.py b/hermespy/hardware_loop/hardware_loop.py
index 128ec79..8b3e4d5 100644
--- a/hermespy/hardware_loop/hardware_loop.py
+++ b/hermespy/hardware_loop/hardware_loop.py
@@ -765,10 +765,12 @@ class HardwareLoop(Generic[PhysicalScenarioType, PDT], Pipeline[PhysicalScenario
                     self.console.print("Skipping drop recording", style="bright_yellow")
 
         # Run internally
-        result = self.__run()
+        try:
+            result = self.__run()
 
-        # Save results and close file streams
-        self.scenario.stop()
+        # Close file streams, even if the run was aborted by an exception
+        finally:
+            self.scenario.stop()
 
         # Save results if a directory was provided
         if self.results_dir:
@@ -804,10 +806,12 @@ class HardwareLoop(Generic[PhysicalScenarioType, PDT], Pipeline[PhysicalScenario
         self.scenario.replay(file_location)
 
         # Run internally
-        self.__run()
+        try:
+            self.__run()
 
-        # Stop the scenario replay
-        self.scenario.stop()
+        # Stop the scenario replay, even if the run was aborted by an exception
+        finally:
+            self.scenario.stop()
 
     def __generate_sample(
         self, section_indices: Tuple[int, ...], sample_index: int
-- 
2.43.0


From 90e15af84017f5a6c53e1f2b51f211983c0933c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 36/57] fix: default dimensions of the hardware loop refer to
 its scenario

---
 hermespy/hardware_loop/hardware_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/hardware_loop/hardware_loop.py b/hermespy/hardware_loop/hardware_loop.py
index 8b3e4d5..6246db9 100644
--- a/hermespy/hardware_loop/hardware_loop.py
+++ b/hermespy/hardware_loop/hardware_loop.py
@@ -558,7 +558,7 @@ class HardwareLoop(Generic[PhysicalScenarioType, PDT], Pipeline[PhysicalScenario
         Returns: The newly created dimension object.
         """
 
-        considered_objects = (self.__scenario) if len(args) < 1 else args
+        considered_objects = self.scenario if len(args) < 1 else args
         grid_dimension = GridDimension(considered_objects, dimension, sample_points, **kwargs)
         self.add_dimension(grid_dimension)
 
-- 
2.43.0


From c27ef8af99e0729a13dc1726189476e5ec87c13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 37/57] fix: restore the interrupt handler after a hardware
 loop run

---
 hermespy/hardware_loop/hardware_loop.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/hermespy/hardware_loop/hardware_loop.py b/hermespy/hardware_loop/hardware_loop.py
index 6246db9..d84aed3 100644
--- a/hermespy/hardware_loop/hardware_loop.py
+++ b/hermespy/hardware_loop/hardware_loop.py
@@ -10,7 +10,7 @@ from abc import ABC, abstractmethod
 from threading import Thread, Condition, Lock
 from contextlib import AbstractContextManager, ExitStack
 from os import path
-from signal import signal, SIGINT
+from signal import signal, SIG_DFL, SIGINT
 from types import TracebackType
 from typing import Any, Callable, Generic, List, Sequence, Tuple, Type
 from warnings import catch_warnings
@@ -861,9 +861,6 @@ class HardwareLoop(Generic[PhysicalScenarioType, PDT], Pipeline[PhysicalScenario
         # Reset variables
         self.__interrupt_run = False
 
-        # Register sigint handler to this instance
-        signal(SIGINT, self.__sigint_handler)
-
         # Initialize the sample grid
         results = [e.initialize_result(self.__dimensions) for e in self.__evaluators]
 
@@ -901,6 +898,12 @@ class HardwareLoop(Generic[PhysicalScenarioType, PDT], Pipeline[PhysicalScenario
         total_progress = progress.add_task("[red]Progress", total=num_total_drops)
 
         with ExitStack() as stack:
+            # Register sigint handler to this instance, restore the previous handler after the run
+            previous_handler = signal(SIGINT, self.__sigint_handler)
+            stack.callback(
+                signal, SIGINT, SIG_DFL if previous_handler is None else previous_handler
+            )
+
             # Initialize plots
             plot_threads: List[PlotThread] = []
             if self.plot_information:
-- 
2.43.0


From 0c00905c7f19bdfc1c1aa3ec160f4c21df8e639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 38/57] fix: visualize each hardware loop sample exactly when
 it becomes available

---
 hermespy/hardware_loop/hardware_loop.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hermespy/hardware_loop/hardware_loop.py b/hermespy/hardware_loop/hardware_loop.py
index d84aed3..68beeba 100644
--- a/hermespy/hardware_loop/hardware_loop.py
+++ b/hermespy/hardware_loop/hardware_loop.py
@@ -386,13 +386,18 @@ class PlotThread(Thread):
 
             stack.enter_context(self.__new_sample)
 
+            visualized_sample: HardwareLoopSample | None = None
             while self.__alive:
-                while not self.__new_sample.wait(1.0) and self.__alive:
-                    pass
+                # Wait for a sample that has not been visualized yet
+                # Samples might be submitted before this thread is waiting for notifications
+                while self.__alive and self.__sample is visualized_sample:
+                    self.__new_sample.wait(1.0)
 
                 with self.__sample_lock:
-                    for plot in self.__plots:
-                        plot.update_plot(self.__sample)
+                    if self.__sample is not visualized_sample:
+                        visualized_sample = self.__sample
+                        for plot in self.__plots:
+                            plot.update_plot(visualized_sample)
 
         # Close the plots
         # This is required as to not confuse the matplotlib backend which thread to use
-- 
2.43.0


From 63a0e817c8a29a2a0e5d2c93217c286b925584e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 39/57] fix: close the figures of failed hardware loop plots

---
 hermespy/hardware_loop/hardware_loop.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hermespy/hardware_loop/hardware_loop.py b/hermespy/hardware_loop/hardware_loop.py
index 68beeba..b0184a4 100644
--- a/hermespy/hardware_loop/hardware_loop.py
+++ b/hermespy/hardware_loop/hardware_loop.py
@@ -372,6 +372,12 @@ class PlotThread(Thread):
         # Initialize figures and plots managed by this thread
         with ExitStack() as stack:
 
+            # Close the plots once the thread is finished, even if a plot failed
+            # This is required as to not confuse the matplotlib backend which thread to use
+            # in upcoming plots
+            for plot in self.__plots:
+                stack.callback(plot.close_plot)
+
             # Set the correct matplotlib style parameters
             stack.enter_context(mpl.rc_context(rc=self.__rc_params))
 
@@ -399,12 +405,6 @@ class PlotThread(Thread):
                         for plot in self.__plots:
                             plot.update_plot(visualized_sample)
 
-        # Close the plots
-        # This is required as to not confuse the matplotlib backend which thread to use
-        # in upcoming plots
-        for plot in self.__plots:
-            plot.close_plot()
-
     def update_plot(self, sample: HardwareLoopSample) -> None:
         """Update the plot with a new sample.
 
-- 
2.43.0


From cd1eb9891a7cf042d02fc09e76a67dcd270cbb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 40/57] fix: restore matplotlib parameters and warning filters
 after a hardware loop run

---
 hermespy/hardware_loop/hardware_loop.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hermespy/hardware_loop/hardware_loop.py b/hermespy/hardware_loop/hardware_loop.py
index b0184a4..cb2e1fb 100644
--- a/hermespy/hardware_loop/hardware_loop.py
+++ b/hermespy/hardware_loop/hardware_loop.py
@@ -922,6 +922,11 @@ class HardwareLoop(Generic[PhysicalScenarioType, PDT], Pipeline[PhysicalScenario
                 # Tile the generated figures
                 tile_figures(2, 4)
 
+            # The plot threads alter global matplotlib parameters and warning filters
+            # in an undefined order, so that they are restored here after all threads finished
+            stack.enter_context(mpl.rc_context())
+            stack.enter_context(catch_warnings())
+
             # Add all threads to the context stack
             stack.enter_context(ThreadContextManager(plot_threads))
 
-- 
2.43.0


From 65c04f97279e05e4e7bbc14361465f95b54e8bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 41/57] fix: radar plots do not alter the plotted receptions

---
 hermespy/hardware_loop/visualizers.py | 28 +++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/hermespy/hardware_loop/visualizers.py b/hermespy/hardware_loop/visualizers.py
index e27c963..42f6fd6 100644
--- a/hermespy/hardware_loop/visualizers.py
+++ b/hermespy/hardware_loop/visualizers.py
@@ -736,10 +736,18 @@ class RadarRangePlot(HardwareLoopPlot[PlotVisualization]):
         if not self.__reception:
             raise RuntimeError("Radar reception is not available")
 
-        cube = self.__reception.cube
-        cube.normalize_power()  # This might be a problem since the normalization is in-place
+        # Normalize a copy of the cube, since the reception is still being evaluated and recorded
+        received_cube = self.__reception.cube
+        cube = RadarCube(
+            received_cube.data,
+            received_cube.angle_bins,
+            received_cube.doppler_bins,
+            received_cube.range_bins,
+            received_cube.carrier_frequency,
+        )
+        cube.normalize_power()
 
-        return self.__reception.cube
+        return cube
 
     def _initial_plot(self, sample: HardwareLoopSample, axes: VAT) -> PlotVisualization:
         cube = self.__get_cube()
@@ -829,10 +837,18 @@ class RadarRangeVelocityPlot(HardwareLoopPlot[QuadMeshVisualization]):
         if not self.__reception:
             raise RuntimeError("Radar reception is not available")
 
-        cube = self.__reception.cube
-        cube.normalize_power()  # This might be a problem since the normalization is in-place
+        # Normalize a copy of the cube, since the reception is still being evaluated and recorded
+        received_cube = self.__reception.cube
+        cube = RadarCube(
+            received_cube.data,
+            received_cube.angle_bins,
+            received_cube.doppler_bins,
+            received_cube.range_bins,
+            received_cube.carrier_frequency,
+        )
+        cube.normalize_power()
 
-        return self.__reception.cube
+        return cube
 
     def _initial_plot(self, sample: HardwareLoopSample, axes: VAT) -> QuadMeshVisualization:
         cube = self.__get_cube()
-- 
2.43.0


From e9314aefc39ba605a09b9a38b9be21dda0238a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 42/57] fix: eye diagram plots of hardware loops pass the
 symbol duration

---
 hermespy/hardware_loop/visualizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/hardware_loop/visualizers.py b/hermespy/hardware_loop/visualizers.py
index 42f6fd6..b606bd3 100644
--- a/hermespy/hardware_loop/visualizers.py
+++ b/hermespy/hardware_loop/visualizers.py
@@ -507,7 +507,7 @@ class EyePlot(HardwareLoopPlot[PlotVisualization]):
             self.__reception.frames[0].signal.duration / self.__reception.frames[0].symbols.raw.size
         )
         return self.__reception.frames[0].signal.eye.visualize(
-            ymbol_duration=symbol_duration, axes=axes
+            symbol_duration=symbol_duration, axes=axes
         )
 
     def _update_plot(self, sample: HardwareLoopSample, visualization: PlotVisualization) -> None:
-- 
2.43.0


From dce59ca162baf9492976a1033e43b74f590555c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 43/57] fix: concurrently started executables do not fail to
 find a results directory

---
 hermespy/core/executable.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hermespy/core/executable.py b/hermespy/core/executable.py
index 145c123..17ba254 100644
--- a/hermespy/core/executable.py
+++ b/hermespy/core/executable.py
@@ -204,13 +204,20 @@ class Executable(ABC):
             dir_index = 0
 
             results_dir = path.join(base_directory, today + "_" + "{:03d}".format(dir_index))
-            while path.exists(results_dir):
+            while True:
+                if not path.exists(results_dir):
+                    # Create the results directory
+                    # Another process might have claimed the index in the meantime
+                    try:
+                        mkdir(results_dir)
+                        break
+
+                    except FileExistsError:
+                        pass
+
                 dir_index += 1
                 results_dir = path.join(base_directory, today + "_" + "{:03d}".format(dir_index))
 
-            # Create the results directory
-            mkdir(results_dir)
-
         return results_dir
 
     @property
-- 
2.43.0


From f85744eabd37d690b3f0dac7f9a0a86326f90711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 44/57] fix: persist the connections of radio-frequency chains

---
 hermespy/simulation/rf/chain.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index 10362b6..75f05d6 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -6,6 +6,8 @@ from collections.abc import MutableMapping
 from typing import Generic, Iterable, SupportsIndex, SupportsInt
 from typing_extensions import override
 
+import numpy as np
+
 from hermespy.core import (
     DenseSignal,
     RandomNode,
@@ -673,6 +675,18 @@ class RFChain(RandomNode, Serializable):
         process.serialize_object_sequence(self.__rf_output_blocks, "rf_output_blocks")
         process.serialize_object_sequence(self.__rf_origin_blocks, "rf_origin_blocks")
 
+        # Serialize the connections between block references
+        # Each row represents a single connection between an output and an input port
+        indices = {reference: r for r, reference in enumerate(self.__block_references)}
+        connections = [
+            (indices[output_block], indices[input_block], output_port, input_port)
+            for input_block in self.__block_references
+            for output_block, ports in input_block.incoming_connections.items()
+            for output_port, input_port in zip(*ports)
+        ]
+        if len(connections) > 0:
+            process.serialize_array(np.array(connections, dtype=np.int64), "connections")
+
         # Serialize random seed if available
         if self.seed is not None:
             process.serialize_integer(self.seed, "seed")
@@ -702,4 +716,22 @@ class RFChain(RandomNode, Serializable):
             process.deserialize_object_sequence("rf_origin_blocks", RFBlockReference)
         )
 
+        # Link the blocks to the chain's random graph
+        for reference in chain_instance.__block_references:
+            chain_instance._own(reference.block)
+
+        # Restore the connections between block references
+        connections = process.deserialize_array("connections", np.int64, None)
+        if connections is not None:
+            ports: dict[tuple[int, int], tuple[list[int], list[int]]] = dict()
+            for output_index, input_index, output_port, input_port in connections.tolist():
+                output_ports, input_ports = ports.setdefault((output_index, input_index), ([], []))
+                output_ports.append(output_port)
+                input_ports.append(input_port)
+            for (output_index, input_index), (output_ports, input_ports) in ports.items():
+                output_block = chain_instance.__block_references[output_index]
+                input_block = chain_instance.__block_references[input_index]
+                output_block.connect_to(input_block, output_ports, input_ports)
+                input_block.connect_from(output_block, output_ports, input_ports)
+
         return chain_instance
-- 
2.43.0


From 42a81263320e55e46aecffa5552fac9966fef778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 45/57] fix: persist the seeds of scramblers

---
 hermespy/fec/scrambler.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hermespy/fec/scrambler.py b/hermespy/fec/scrambler.py
index b11324a..e3f1fd3 100644
--- a/hermespy/fec/scrambler.py
+++ b/hermespy/fec/scrambler.py
@@ -134,6 +134,7 @@ class Scrambler3GPP(Encoder, Serializable):
 
     __transmit_rng: PseudoRandomGenerator
     __receive_rng: PseudoRandomGenerator
+    __init_sequence: np.ndarray
     __default_seed = np.array([0, 1, 0, 1, 1, 0, 1], int)
 
     def __init__(self, seed: np.ndarray | None = None) -> None:
@@ -151,6 +152,7 @@ class Scrambler3GPP(Encoder, Serializable):
         # Initialize the pseudo random number generator
         seed = self.__default_seed.copy() if seed is None else seed
 
+        self.__init_sequence = seed
         self.__transmit_rng = PseudoRandomGenerator(seed)
         self.__receive_rng = PseudoRandomGenerator(seed)
 
@@ -181,12 +183,12 @@ class Scrambler3GPP(Encoder, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        return
+        process.serialize_array(np.asarray(self.__init_sequence, dtype=np.int64), "init_sequence")
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> Scrambler3GPP:
-        return cls()
+        return cls(process.deserialize_array("init_sequence", np.int64, None))
 
 
 class Scrambler80211a(Encoder, Serializable):
@@ -294,9 +296,9 @@ class Scrambler80211a(Encoder, Serializable):
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-        return
+        process.serialize_array(np.asarray(self.__seed, dtype=np.int64), "init_sequence")
 
     @override
     @classmethod
     def Deserialize(cls, process: DeserializationProcess) -> Scrambler80211a:
-        return cls()
+        return cls(process.deserialize_array("init_sequence", np.int64, None))
-- 
2.43.0


From 2944f7ebc75ac15677709cdf820972a94fb2feb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 46/57] fix: persist ports and noise of analog-to-digital
 converters

---
 hermespy/simulation/rf/blocks/ad.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hermespy/simulation/rf/blocks/ad.py b/hermespy/simulation/rf/blocks/ad.py
index 18e2c90..eabec30 100644
--- a/hermespy/simulation/rf/blocks/ad.py
+++ b/hermespy/simulation/rf/blocks/ad.py
@@ -613,6 +613,11 @@ class ADC(ConverterBase, DSPOutputBlock):
             process.serialize_integer(self.num_quantization_bits, "num_quantization_bits")
         process.serialize_object(self.gain, "gain")
         process.serialize_object(self.quantizer_type, "quantizer_type")
+        process.serialize_integer(self.num_output_ports, "num_ports")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
 
     @override
     @classmethod
@@ -621,6 +626,10 @@ class ADC(ConverterBase, DSPOutputBlock):
             process.deserialize_integer("num_quantization_bits", None),
             process.deserialize_object("gain", GainControlBase, None),
             process.deserialize_object("quantizer_type", QuantizerType, QuantizerType.MID_RISER),
+            process.deserialize_integer("num_ports", 1),
+            process.deserialize_object("noise_model", NoiseModel, None),
+            process.deserialize_object("noise_level", NoiseLevel, None),
+            process.deserialize_integer("seed", None),
         )
 
 
-- 
2.43.0


From 650df2d19c1b72e64f546156a5928010305b005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:44 +0000
Subject: [PATCH 47/57] fix: persist all types of radio-frequency blocks

---
 hermespy/simulation/rf/blocks/filters.py | 21 +++++++++++++++++++++
 hermespy/simulation/rf/blocks/shift.py   | 23 +++++++++++++++++++++++
 hermespy/simulation/rf/blocks/source.py  | 23 +++++++++++++++++++++++
 hermespy/simulation/rf/blocks/split.py   | 15 +++++++++++++++
 hermespy/simulation/rf/blocks/sum.py     | 15 +++++++++++++++
 hermespy/simulation/rf/blocks/x4.py      | 13 +++++++++++++
 6 files changed, 110 insertions(+)

diff --git a/hermespy/simulation/rf/blocks/filters.py b/hermespy/simulation/rf/blocks/filters.py
index 6541911..4d4f991 100644
--- a/hermespy/simulation/rf/blocks/filters.py
+++ b/hermespy/simulation/rf/blocks/filters.py
@@ -7,6 +7,7 @@ from typing_extensions import override
 import numpy as np
 from scipy.signal import butter, filtfilt
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 from ..noise import NoiseModel, NoiseLevel, NoiseRealization
@@ -232,3 +233,23 @@ class HPF(Filter):
             oversampling_factor,
             self.noise_model.realize(self.noise_level.get_power(bandwidth)),
         )
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_floating(self.cutoff_frequency, "cutoff_frequency")
+        process.serialize_integer(self.filter_order, "filter_order")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> HPF:
+        return cls(
+            process.deserialize_floating("cutoff_frequency"),
+            process.deserialize_integer("filter_order"),
+            noise_model=process.deserialize_object("noise_model", NoiseModel),
+            noise_level=process.deserialize_object("noise_level", NoiseLevel),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/shift.py b/hermespy/simulation/rf/blocks/shift.py
index 8d81bb2..8402c62 100644
--- a/hermespy/simulation/rf/blocks/shift.py
+++ b/hermespy/simulation/rf/blocks/shift.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 from ..noise import NoiseModel, NoiseLevel
@@ -117,3 +118,25 @@ class Shift(RFBlock):
         """
 
         return self.__o
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_floating(self.phase, "phase")
+        process.serialize_integer(self.num_quantization_bits, "num_quantization_bits")
+        process.serialize_integer(self.__num_ports, "num_ports")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Shift:
+        return cls(
+            process.deserialize_floating("phase"),
+            process.deserialize_integer("num_quantization_bits"),
+            process.deserialize_integer("num_ports"),
+            noise_model=process.deserialize_object("noise_model", NoiseModel),
+            noise_level=process.deserialize_object("noise_level", NoiseLevel),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/source.py b/hermespy/simulation/rf/blocks/source.py
index 8da0522..76cecd1 100644
--- a/hermespy/simulation/rf/blocks/source.py
+++ b/hermespy/simulation/rf/blocks/source.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..noise import (
     NoiseRealization,
     NoiseLevel,
@@ -212,3 +213,25 @@ class Source(RFBlock):
         # Add phase noise to the output signal
         noisy_output = realization.phase_noise.add_noise(output)
         return noisy_output
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_floating(self.carrier_frequency, "carrier_frequency")
+        process.serialize_object(self.__phase_noise, "phase_noise")
+        process.serialize_floating(self.amplitude, "amplitude")
+        process.serialize_object(self.noise_model, "noise_model")
+        process.serialize_object(self.noise_level, "noise_level")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Source:
+        return cls(
+            process.deserialize_floating("carrier_frequency"),
+            process.deserialize_object("phase_noise", PhaseNoise),
+            process.deserialize_floating("amplitude"),
+            noise_model=process.deserialize_object("noise_model", NoiseModel),
+            noise_level=process.deserialize_object("noise_level", NoiseLevel),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/split.py b/hermespy/simulation/rf/blocks/split.py
index 92c8e14..6b0a22b 100644
--- a/hermespy/simulation/rf/blocks/split.py
+++ b/hermespy/simulation/rf/blocks/split.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 
@@ -73,3 +74,17 @@ class Split(RFBlock):
         """
 
         return self.__o
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_integer(self.__num_outputs, "num_outputs")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Split:
+        return cls(
+            process.deserialize_integer("num_outputs"),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/sum.py b/hermespy/simulation/rf/blocks/sum.py
index 48821d1..7b9f4b1 100644
--- a/hermespy/simulation/rf/blocks/sum.py
+++ b/hermespy/simulation/rf/blocks/sum.py
@@ -5,6 +5,7 @@ from typing_extensions import override
 
 import numpy as np
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 
@@ -78,3 +79,17 @@ class Sum(RFBlock):
         """Output port of the summation block."""
 
         return self.__o
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        process.serialize_integer(self.__num_input_ports, "num_input_ports")
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> Sum:
+        return cls(
+            process.deserialize_integer("num_input_ports"),
+            seed=process.deserialize_integer("seed", None),
+        )
diff --git a/hermespy/simulation/rf/blocks/x4.py b/hermespy/simulation/rf/blocks/x4.py
index 3d994eb..50edcf2 100644
--- a/hermespy/simulation/rf/blocks/x4.py
+++ b/hermespy/simulation/rf/blocks/x4.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 from typing_extensions import override
 
+from hermespy.core import DeserializationProcess, SerializationProcess
 from ..block import RFBlock, RFBlockRealization, RFBlockPort, RFBlockPortType
 from ..signal import RFSignal
 
@@ -71,3 +72,15 @@ class X4(RFBlock):
         output: RFSignal = input.copy()
         output.carrier_frequencies = input.carrier_frequencies * 4
         return output
+
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        if self.seed is not None:
+            process.serialize_integer(self.seed, "seed")
+
+    @classmethod
+    @override
+    def Deserialize(cls, process: DeserializationProcess) -> X4:
+        return cls(
+            seed=process.deserialize_integer("seed", None),
+        )
-- 
2.43.0


From 87d1c433236300b0b93f38f62e5eb1b1460c1eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:44 +0000
Subject: [PATCH 48/57] fix: persist the antenna arrays of simulated devices

---
 hermespy/simulation/simulated_device.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index b7a8918..5463fca 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -2075,6 +2075,7 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         Device.serialize(self, process)
+        process.serialize_object(self.antennas, "antennas")
         process.serialize_object(self.rf, "rf")
         process.serialize_object(self.isolation, "isolation")
         process.serialize_object(self.coupling, "coupling")
-- 
2.43.0


From 27e7f3ec958ac464db8cffe5d0ba9a687dfc5d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:44 +0000
Subject: [PATCH 49/57] fix: persist the trajectories of simulated devices

---
 hermespy/simulation/simulated_device.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 5463fca..8dbd3fb 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -2075,6 +2075,7 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         Device.serialize(self, process)
+        Moveable.serialize(self, process)
         process.serialize_object(self.antennas, "antennas")
         process.serialize_object(self.rf, "rf")
         process.serialize_object(self.isolation, "isolation")
@@ -2094,6 +2095,9 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
         base_parameters = Device._DeserializeParameters(process)
         base_parameters.update(
             {
+                "pose": process.deserialize_object(
+                    "trajectory", Trajectory, base_parameters["pose"]
+                ),
                 "antennas": process.deserialize_object("antennas", SimulatedAntennaArray, None),
                 "rf": process.deserialize_object("rf", RFChain, None),
                 "isolation": process.deserialize_object("isolation", Isolation, None),
-- 
2.43.0


From 61bc0ac3497ddd0c7ae18e5eb56f04053c223484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:17 +0000
Subject: [PATCH 50/57] fix: restore custom arrays of simulated antennas as
 such

---
 hermespy/core/antennas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index cecea0e..ad806ea 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -1479,7 +1479,7 @@ class CustomAntennaArray(Generic[AT], AntennaArray[AT], Serializable):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> CustomAntennaArray:
-        return CustomAntennaArray(
+        return cls(
             process.deserialize_object_sequence("antennas", Antenna),
             process.deserialize_array("pose", np.float64).view(Transformation),
         )
-- 
2.43.0


From 4a8f656dfe7ad9af4b83e18f5469c96b6ca0fd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:10 +0000
Subject: [PATCH 51/57] fix: persist the pilot sequences of waveforms

---
 hermespy/modem/waveform_single_carrier.py       | 10 ++++++++++
 hermespy/modem/waveforms/orthogonal/waveform.py |  8 ++++++++
 2 files changed, 18 insertions(+)

diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index 9f3ce05..98ca0dd 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -454,6 +454,10 @@ class FilteredSingleCarrierWaveform(ConfigurablePilotWaveform):
         process.serialize_integer(self.num_postamble_symbols, "num_postamble_symbols")
         process.serialize_floating(self.guard_interval, "guard_interval")
         process.serialize_integer(self.pilot_rate, "pilot_rate")
+        process.serialize_object(self.pilot_symbol_sequence, "pilot_symbol_sequence")
+        process.serialize_integer(
+            int(self.repeat_pilot_symbol_sequence), "repeat_pilot_symbol_sequence"
+        )
 
     @override
     @classmethod
@@ -474,6 +478,12 @@ class FilteredSingleCarrierWaveform(ConfigurablePilotWaveform):
         parameters["pilot_rate"] = process.deserialize_integer(
             "pilot_rate", cls.__DEFAULT_PILOT_RATE
         )
+        parameters["pilot_symbol_sequence"] = process.deserialize_object(
+            "pilot_symbol_sequence", PilotSymbolSequence, None
+        )
+        parameters["repeat_pilot_symbol_sequence"] = bool(
+            process.deserialize_integer("repeat_pilot_symbol_sequence", 1)
+        )
         return parameters
 
     @override
diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index b37cb3e..39fcb96 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -1371,6 +1371,8 @@ class OrthogonalWaveform(ConfigurablePilotWaveform, ABC):
         process.serialize_object_sequence(self.grid_structure, "grid_structure")
         if self.pilot_section is not None:
             process.serialize_object(self.pilot_section, "pilot_section")
+        process.serialize_object(self.pilot_symbol_sequence, "pilot_sequence")
+        process.serialize_integer(int(self.repeat_pilot_symbol_sequence), "repeat_pilot_sequence")
 
     @classmethod
     @override
@@ -1386,6 +1388,12 @@ class OrthogonalWaveform(ConfigurablePilotWaveform, ABC):
                     "grid_structure", GridSection
                 ),
                 "pilot_section": process.deserialize_object("pilot_section", PilotSection, None),
+                "pilot_sequence": process.deserialize_object(
+                    "pilot_sequence", PilotSymbolSequence, None
+                ),
+                "repeat_pilot_sequence": bool(
+                    process.deserialize_integer("repeat_pilot_sequence", 1)
+                ),
             }
         )
         return params
-- 
2.43.0


From 0a45204ef0f3bd1140301300831845b6dfd35489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 52/57] fix: persist the waveforms of OFDM radars

---
 hermespy/jcas/ofdm_radar.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/hermespy/jcas/ofdm_radar.py b/hermespy/jcas/ofdm_radar.py
index d0578f9..41cc7a2 100644
--- a/hermespy/jcas/ofdm_radar.py
+++ b/hermespy/jcas/ofdm_radar.py
@@ -10,7 +10,14 @@ from scipy.constants import speed_of_light
 from scipy.fft import ifft, fft, ifftshift
 
 from hermespy.beamforming import ReceiveBeamformer
-from hermespy.core import DeserializationProcess, Serializable, ReceiveState, Signal, TransmitState
+from hermespy.core import (
+    DeserializationProcess,
+    Serializable,
+    SerializationProcess,
+    ReceiveState,
+    Signal,
+    TransmitState,
+)
 from hermespy.jcas.jcas import JCASReception, JCASTransmission
 from hermespy.modem import OFDMWaveform, ReceivingModemBase, TransmittingModemBase, Symbols
 from hermespy.radar import RadarCube, RadarDetector, RadarReception
@@ -254,7 +261,16 @@ class OFDMRadar(DuplexJCASOperator[OFDMWaveform], Serializable):
         radar_reception = RadarReception(signal, cube, cloud)
         return JCASReception(communication_reception, radar_reception)
 
+    @override
+    def serialize(self, process: SerializationProcess) -> None:
+        DuplexJCASOperator.serialize(self, process)
+        if self.waveform is not None:
+            process.serialize_object(self.waveform, "waveform")
+
     @classmethod
     @override
     def Deserialize(cls: Type[OFDMRadar], process: DeserializationProcess) -> OFDMRadar:
-        return cls(**cls._DeserializeParameters(process))  # type: ignore[arg-type]
+        return cls(
+            process.deserialize_object("waveform", OFDMWaveform, None),
+            **cls._DeserializeParameters(process),  # type: ignore[arg-type]
+        )
-- 
2.43.0


From 0f0124f05e4609c36f4150f4898022a980df0f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:11 +0000
Subject: [PATCH 53/57] fix: guard intervals of chirp FSK frames are silent

---
 hermespy/modem/waveform_chirp_fsk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/modem/waveform_chirp_fsk.py b/hermespy/modem/waveform_chirp_fsk.py
index b170ea5..e219df5 100644
--- a/hermespy/modem/waveform_chirp_fsk.py
+++ b/hermespy/modem/waveform_chirp_fsk.py
@@ -295,7 +295,7 @@ class ChirpFSKWaveform(PilotCommunicationWaveform):
             self.freq_difference,
             samples_in_chirp,
         )
-        frame_samples = np.empty(
+        frame_samples = np.zeros(
             self.samples_per_frame(bandwidth, oversampling_factor), dtype=complex
         )
 
-- 
2.43.0


From 3bf7d264e689a499d0f76e2d720dc4666c5de597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 54/57] fix: silent transmitters generate base-band signals

---
 hermespy/core/operators.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hermespy/core/operators.py b/hermespy/core/operators.py
index 7a0f88e..6f89b06 100644
--- a/hermespy/core/operators.py
+++ b/hermespy/core/operators.py
@@ -79,7 +79,6 @@ class SilentTransmitter(StaticOperator, Transmitter[Transmission], Serializable)
         silence = Signal.Create(
             np.zeros((state.num_transmit_dsp_ports, num_samples), dtype=complex),
             sampling_rate=state.sampling_rate,
-            carrier_frequency=state.carrier_frequency,
         )
 
         return Transmission(silence)
-- 
2.43.0


From 9965aea0aeb53f8acfc2ad194207c4dd59897b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 55/57] fix: restore the dimensions of uniform arrays as
 integers

---
 hermespy/core/antennas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index ad806ea..438be1d 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -1419,7 +1419,9 @@ class UniformArray(Generic[AT], AntennaArray[AT], Serializable):
     def Deserialize(cls, process: DeserializationProcess) -> UniformArray:
         pose = process.deserialize_array("pose", np.float64).view(Transformation)
         spacing = process.deserialize_floating("spacing")
-        dimensions = process.deserialize_array("dimensions", np.float64).flatten().tolist()
+        dimensions = [
+            int(d) for d in process.deserialize_array("dimensions", np.float64).flatten()
+        ]
         element = process.deserialize_object("element", Antenna)
         return cls(element, spacing, dimensions, pose)  # type: ignore[arg-type]
 
-- 
2.43.0


From e8b97176e644f77c4ba26a2668ab3010fc960381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 56/57] fix: samples of orthogonal waveform frames not covered
 by any section are silent

---
 hermespy/modem/waveforms/orthogonal/waveform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index 39fcb96..50dad25 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -521,7 +521,7 @@ class SymbolSection(GridSection["OrthogonalWaveform"]):
     def place_samples(
         self, signal: np.ndarray, bandwidth: float, oversampling_factor: int
     ) -> np.ndarray:
-        placed_samples = np.empty(
+        placed_samples = np.zeros(
             self.num_samples(bandwidth, oversampling_factor), dtype=np.complex128
         )
         sample_idx = 0
@@ -1291,7 +1291,7 @@ class OrthogonalWaveform(ConfigurablePilotWaveform, ABC):
 
     @override
     def modulate(self, data_symbols: Symbols, bandwidth: float, oversampling_factor) -> np.ndarray:
-        frame_samples = np.empty(
+        frame_samples = np.zeros(
             self.samples_per_frame(bandwidth, oversampling_factor), dtype=np.complex128
         )
         sample_idx = 0
-- 
2.43.0


From 34ad9f90360b0e459466616a13bd4d2ab72c62d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:35 +0000
Subject: [PATCH 57/57] fix: equalize received silence without a channel
 estimate

---
 hermespy/modem/waveform_single_carrier.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/waveform_single_carrier.py b/hermespy/modem/waveform_single_carrier.py
index 98ca0dd..1547c2d 100644
--- a/hermespy/modem/waveform_single_carrier.py
+++ b/hermespy/modem/waveform_single_carrier.py
@@ -613,7 +613,9 @@ class SingleCarrierMinimumMeanSquareChannelEqualization(SingleCarrierChannelEqua
 
         # If no information about transmitted streams is available, assume orthogonal channels
         if stated_symbols.num_transmit_streams < 2 and stated_symbols.num_streams < 2:
-            return Symbols(stated_symbols.raw / (stated_symbols.states[:, 0, :, :] + 1 / snr))
+            return Symbols(
+                stated_symbols.raw / (stated_symbols.dense_states()[:, 0, :, :] + 1 / snr)
+            )
 
         if stated_symbols.num_transmit_streams > stated_symbols.num_streams:
             raise RuntimeError(
-- 
2.43.0

