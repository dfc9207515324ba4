From a9dffe419340c8ea11cde4422ec425d185d29246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:16 +0000
Subject: [PATCH 01/60] fix: honour RunBefore and RunAfter restrictions

A subscripted generic is not a class, so the restrictions were never
recognised: they were treated as inputs nothing could produce and a
stage that had one could not be resolved or run.
---
 instancespace/stage_builder.py | 32 ++++++++++++++------------------
 instancespace/stage_runner.py  |  7 ++++++-
 instancespace/stages/stage.py  | 18 +++++++++++++++++-
 3 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index adb8080..157927f 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -3,7 +3,12 @@
 from typing import NamedTuple, Self, get_args
 
 from instancespace.stage_runner import StageRunner, StageScheduleElement, _StageArgument
-from instancespace.stages.stage import RunAfter, RunBefore, StageClass
+from instancespace.stages.stage import (
+    RunAfter,
+    RunBefore,
+    StageClass,
+    is_run_restriction,
+)
 
 
 class _BeforeAfterRestriction(NamedTuple):
@@ -107,9 +112,7 @@ class StageBuilder:
         outputs = stage._outputs()  # noqa: SLF001
 
         for output_name, output_type in self._named_tuple_to_stage_arguments(outputs):
-            if isinstance(output_type, type) and (
-                issubclass(output_type, RunBefore) or issubclass(output_type, RunAfter)
-            ):
+            if is_run_restriction(output_type):
                 raise TypeError(
                     f"Argument {output_name} is a {output_type}. "
                     + f"{output_type}s are only allowed as inputs.",
@@ -145,7 +148,10 @@ class StageBuilder:
 
         return StageRunner(
             stage_order,
-            self._stage_inputs,
+            {
+                stage: self._strip_run_restriction_arguments(arguments)
+                for stage, arguments in self._stage_inputs.items()
+            },
             self._stage_outputs,
             initial_input_annotations,
         )
@@ -265,11 +271,7 @@ class StageBuilder:
         return {
             argument
             for argument in arguments
-            if not isinstance(argument.parameter_type, type)
-            or not (
-                issubclass(argument.parameter_type, RunBefore)
-                or issubclass(argument.parameter_type, RunAfter)
-            )
+            if not is_run_restriction(argument.parameter_type)
         }
 
     def _get_mutating_stages(self) -> dict[StageClass, set[_StageArgument]]:
@@ -292,19 +294,13 @@ class StageBuilder:
 
         for stage in self._stages:
             for argument in self._stage_inputs[stage]:
-                if isinstance(argument.parameter_type, type) and issubclass(
-                    argument.parameter_type,
-                    RunBefore,
-                ):
+                if is_run_restriction(argument.parameter_type, (RunBefore,)):
                     before_stage = get_args(argument.parameter_type)[0]
                     ordering_restrictions.add(
                         _BeforeAfterRestriction(stage, before_stage),
                     )
 
-                if isinstance(argument.parameter_type, type) and issubclass(
-                    argument.parameter_type,
-                    RunAfter,
-                ):
+                if is_run_restriction(argument.parameter_type, (RunAfter,)):
                     after_stage = get_args(argument.parameter_type)[0]
                     ordering_restrictions.add(
                         _BeforeAfterRestriction(after_stage, stage),
diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 32041b8..a840dab 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -7,7 +7,7 @@ from collections import defaultdict
 from collections.abc import Generator
 from typing import Any, NamedTuple
 
-from instancespace.stages.stage import OUT, Stage, StageClass
+from instancespace.stages.stage import OUT, Stage, StageClass, is_run_restriction
 
 StageScheduleElement = list[StageClass]
 
@@ -146,6 +146,11 @@ class StageRunner:
         raw_inputs = {}
 
         for input_name in input_arguments._fields:
+            # Run restrictions only affect the order of stages, and have no value
+            if is_run_restriction(input_arguments.__annotations__[input_name]):
+                raw_inputs[input_name] = None
+                continue
+
             # TODO: Some sort of type check on the inputs
             raw_inputs[input_name] = available_arguments[input_name]
 
diff --git a/instancespace/stages/stage.py b/instancespace/stages/stage.py
index 25611de..63f8585 100644
--- a/instancespace/stages/stage.py
+++ b/instancespace/stages/stage.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
-from typing import Any, Generic, NamedTuple, TypeVar
+from typing import Any, Generic, NamedTuple, TypeVar, get_origin
 
 IN = TypeVar("IN", bound=NamedTuple)
 OUT = TypeVar("OUT", bound=NamedTuple)
@@ -50,3 +50,19 @@ class RunBefore(Generic[T]):
 
 class RunAfter(Generic[T]):
     """Marks that a stage should be run after another stage."""
+
+
+def is_run_restriction(
+    parameter_type: Any,  # noqa: ANN401
+    restrictions: tuple[type, ...] = (RunBefore, RunAfter),
+) -> bool:
+    """Whether an input's type is a run restriction, like `RunBefore[SomeStage]`.
+
+    A subscripted generic is not a class, so its origin has to be compared instead.
+    """
+    parameter_class = get_origin(parameter_type) or parameter_type
+
+    return isinstance(parameter_class, type) and issubclass(
+        parameter_class,
+        restrictions,
+    )
-- 
2.43.0


From a836c3cb21a3e8d193c448816696aea931721484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:28 +0000
Subject: [PATCH 02/60] fix: do not change the caller's set of initial inputs
 when building

Every output was added to the set that was passed in, so the runner's check
that the order is runnable never failed, and building again with the same set
resolved stages whose inputs nothing had produced yet.
---
 instancespace/stage_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index 157927f..16c7236 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -164,7 +164,7 @@ class StageBuilder:
 
         stage_order: list[StageScheduleElement] = []
 
-        available_inputs: set[_StageArgument] = initial_input_annotations
+        available_inputs: set[_StageArgument] = initial_input_annotations.copy()
 
         previous_resolved_stages: set[StageClass] | None = None
 
-- 
2.43.0


From 63fae4d89b11460236e0c8f5c939fee1321a3244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:28 +0000
Subject: [PATCH 03/60] fix: resolve stages that have no outputs

A stage was only marked as resolved while adding its outputs.
---
 instancespace/stage_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index 16c7236..09b56f9 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -224,7 +224,7 @@ class StageBuilder:
             for stage in stages_can_run_post_mutating_check:
                 for argument in self._stage_outputs[stage]:
                     available_inputs.add(argument)
-                    resolved_stages.add(stage)
+                resolved_stages.add(stage)
 
             stage_order.append(list(stages_can_run_post_mutating_check))
 
-- 
2.43.0


From fcc7ce6829194b8464050e25871a3d42f6068b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:53 +0000
Subject: [PATCH 04/60] fix: two stages producing one name at the same time are
 ambiguous whatever its type

Outputs are stored by name, so with different types one silently replaced the
other, depending on the arbitrary order of a set.
---
 instancespace/stage_builder.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index 09b56f9..cc28ab3 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -209,9 +209,14 @@ class StageBuilder:
             # Check for stages with the same output running at the same time
             for stage in stages_can_run_post_mutating_check:
                 for other_stage in stages_can_run_post_mutating_check - {stage}:
-                    shared_outputs = (
-                        self._stage_outputs[stage] & self._stage_outputs[other_stage]
-                    )
+                    # Outputs are stored by name, whatever their type is
+                    shared_outputs = {
+                        argument.parameter_name
+                        for argument in self._stage_outputs[stage]
+                    } & {
+                        argument.parameter_name
+                        for argument in self._stage_outputs[other_stage]
+                    }
                     if len(shared_outputs) > 0:
                         raise StageResolutionError(
                             f"The order {stage} and {other_stage} run is ambiguous. "
-- 
2.43.0


From 73f8a06decd764428c50fd3ec0b7a162255a3250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:08 +0000
Subject: [PATCH 05/60] fix: roll back the data when an earlier stage is ran
 again

Every schedule's saved data was the same dict, so nothing was rolled back: a
mutating stage that was ran again was given its own output, a dict a run had
returned changed afterwards, and after starting over the stages of the first
schedule still counted as ran.
---
 instancespace/stage_runner.py | 39 ++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index a840dab..5121785 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -37,6 +37,9 @@ class StageRunner:
     # at every stage schedule so you can rerun stages.
     _schedule_output_data: list[dict[str, Any]]
 
+    # Data the current run was started with
+    _initial_arguments: dict[str, Any]
+
     _available_arguments: dict[str, Any]
 
     # Cached index for when a stage is going to be ran, calculated in the constructor
@@ -72,6 +75,7 @@ class StageRunner:
         self._schedule_output_data = [{}]
         self._current_schedule_item = 0
 
+        self._initial_arguments = {}
         self._available_arguments = {}
         self._stage_to_schedule_index = {}
         self._stages_ran = defaultdict(lambda: False)
@@ -97,9 +101,7 @@ class StageRunner:
         ------
             Generator[AnnotatedStageOutput, None, dict[str, Any]]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._start_new_run(additional_arguments)
 
         for schedule in self._stage_order:
             for stage in schedule:
@@ -137,7 +139,16 @@ class StageRunner:
         if stage_schedule_index != self._current_schedule_item:
             self._rollback_to_schedule_index(stage_schedule_index)
 
-        available_arguments = self._available_arguments.copy()
+        # A stage only sees the outputs of the schedules before its own, so the order of
+        # the stages in a schedule doesn't matter, and a stage that is ran again doesn't
+        # get its own outputs as inputs.
+        if stage_schedule_index == 0:
+            available_arguments = self._initial_arguments.copy()
+        else:
+            available_arguments = self._schedule_output_data[
+                stage_schedule_index - 1
+            ].copy()
+
         for k, v in additional_arguments.items():
             available_arguments[k] = v
 
@@ -159,8 +170,9 @@ class StageRunner:
 
         outputs = stage._run(deepcopy(inputs))  # noqa: SLF001
 
-        for output_name, output_value in outputs._asdict().items():
-            self._available_arguments[output_name] = output_value
+        # Not updated in place, as the data of earlier schedules and what previous runs
+        # returned has to stay as it was.
+        self._available_arguments = self._available_arguments | outputs._asdict()
 
         self._schedule_output_data[self._current_schedule_item] = (
             self._available_arguments
@@ -201,9 +213,7 @@ class StageRunner:
         -------
             tuple[Any]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._start_new_run(additional_arguments)
 
         for schedule in self._stage_order:
             for stage in schedule:
@@ -222,9 +232,7 @@ class StageRunner:
         -------
             tuple[Any]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._start_new_run(additional_arguments)
 
         for schedule in self._stage_order:
             if stop_at_stage in schedule:
@@ -258,6 +266,13 @@ class StageRunner:
             for stage in schedule_element:
                 available_arguments |= output_arguments[stage]
 
+    def _start_new_run(self, initial_arguments: NamedTuple) -> None:
+        self._initial_arguments = initial_arguments._asdict()
+        self._available_arguments = self._initial_arguments.copy()
+        self._schedule_output_data = [{}]
+        self._current_schedule_item = 0
+        self._stages_ran.clear()
+
     def _rollback_to_schedule_index(
         self,
         index: int,
-- 
2.43.0


From b84499721c6cb5495e422e2576310a9dab66b33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:08 +0000
Subject: [PATCH 06/60] fix: run_until_stage runs the specified stage too, as
 documented

---
 instancespace/stage_runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 5121785..3c687fe 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -236,6 +236,7 @@ class StageRunner:
 
         for schedule in self._stage_order:
             if stop_at_stage in schedule:
+                self.run_stage(stop_at_stage)
                 break
 
             for stage in schedule:
-- 
2.43.0


From 4503577f9cc13f3e8095140748dda021f5fee5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:22 +0000
Subject: [PATCH 07/60] fix: the model is available after run_iter, and is
 renewed by another build

---
 instancespace/instance_space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/instancespace/instance_space.py b/instancespace/instance_space.py
index 6c657de..3ec6a7d 100644
--- a/instancespace/instance_space.py
+++ b/instancespace/instance_space.py
@@ -236,6 +236,7 @@ class InstanceSpace:
             self.options,
         )
         self._final_output = self._runner.run_all(inputs)
+        self._model = None
 
         return self.model
 
@@ -254,7 +255,8 @@ class InstanceSpace:
             self.metadata,
             self.options,
         )
-        yield from self._runner.run_iter(inputs)
+        self._final_output = yield from self._runner.run_iter(inputs)
+        self._model = None
 
     def run_stage(
         self,
-- 
2.43.0


From 06589e767a52a46fac4378b2c863cf8097384282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:56 +0000
Subject: [PATCH 08/60] fix: pass on the instance labels that PRELIM selected

The output had another name than the input of later stages, which kept using
the labels of every instance when a subset of them was selected.
---
 instancespace/stages/prelim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index d71f98f..0698a0b 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -118,8 +118,8 @@ class PrelimOutput(NamedTuple):
     beta : NDArray[np.bool_]
         Binary array indicating selected features based on certain criteria
           (True if selected).
-    instlabels : pd.Series | None
-        Labels for each instance in the dataset, if provided.
+    inst_labels : pd.Series
+        Labels for each instance in the dataset.
     data_dense : DataDense | None
         Dense data representation, if available, containing compressed or alternative
           feature representations.
@@ -149,7 +149,7 @@ class PrelimOutput(NamedTuple):
     p: NDArray[np.int_]
     num_good_algos: NDArray[np.double]
     beta: NDArray[np.bool_]
-    instlabels: pd.Series | None  # type: ignore[type-arg]
+    inst_labels: pd.Series  # type: ignore[type-arg]
     data_dense: DataDense | None
     s: pd.Series | None  # type: ignore[type-arg]
 
-- 
2.43.0


From 765ff455563719bd1616a437fb5c5f69c5478296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:24 +0000
Subject: [PATCH 09/60] fix: ignore missing values when bounding and
 normalising in PRELIM

Missing values are allowed in the metadata, and kept as they are, but a single
one made every value of its feature, or every performance value, missing.
---
 instancespace/stages/prelim.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 0698a0b..1e96699 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -445,9 +445,14 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             lo_bound: The lower bound for the feature values.
         """
         print("-> Removing extreme outliers from the feature values.")
-        med_val = np.median(self.x, axis=0)
+        med_val = np.nanmedian(self.x, axis=0)
 
-        iq_range = stats.iqr(self.x, axis=0, interpolation="midpoint")
+        iq_range = stats.iqr(
+            self.x,
+            axis=0,
+            interpolation="midpoint",
+            nan_policy="omit",
+        )
 
         hi_bound = med_val + 5 * iq_range
         lo_bound = med_val - 5 * iq_range
@@ -535,7 +540,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         nfeats = self.x.shape[1]
         nalgos = self.y.shape[1]
 
-        min_x = np.min(self.x, axis=0)
+        min_x = np.nanmin(self.x, axis=0)
         self.x = self.x - min_x + 1
         lambda_x = np.zeros(nfeats)
         mu_x = np.zeros(nfeats)
@@ -550,7 +555,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             aux = stats.zscore(aux, ddof=1)
             self.x[~idx, i] = aux
 
-        min_y = float(np.min(self.y))
+        min_y = float(np.nanmin(self.y))
 
         self.y = (self.y - min_y) + np.finfo(float).eps
 
@@ -674,8 +679,8 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             p,
         )
 
-        med_val = np.median(x, axis=0)
-        iq_range = stats.iqr(x, axis=0, interpolation="midpoint")
+        med_val = np.nanmedian(x, axis=0)
+        iq_range = stats.iqr(x, axis=0, interpolation="midpoint", nan_policy="omit")
         hi_bound = med_val + 5 * iq_range
         lo_bound = med_val - 5 * iq_range
 
@@ -689,11 +694,11 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
 
         nfeats = x.shape[1]
         nalgos = y.shape[1]
-        min_x = np.min(x, axis=0)
+        min_x = np.nanmin(x, axis=0)
         lambda_x = np.zeros(nfeats)
         mu_x = np.zeros(nfeats)
         sigma_x = np.zeros(nfeats)
-        min_y = float(np.min(y))
+        min_y = float(np.nanmin(y))
         lambda_y = np.zeros(nalgos)
         mu_y = np.zeros(nalgos)
         sigma_y = np.zeros(nalgos)
-- 
2.43.0


From aada09943fcfc41818d7d7aa5a67283527ed83b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:55 +0000
Subject: [PATCH 10/60] fix: scale a constant feature or performance to zero in
 PRELIM

It became missing in every instance.
---
 instancespace/stages/prelim.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 1e96699..71a92d3 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -552,7 +552,9 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             aux, lambda_x[i] = boxcox_fmin(aux[~idx])
             mu_x[i] = np.mean(aux)
             sigma_x[i] = np.std(aux, ddof=1)
-            aux = stats.zscore(aux, ddof=1)
+            # A constant can't be scaled
+            is_constant = len(np.unique(self.x[~idx, i])) <= 1
+            aux = np.zeros_like(aux) if is_constant else stats.zscore(aux, ddof=1)
             self.x[~idx, i] = aux
 
         min_y = float(np.nanmin(self.y))
@@ -569,7 +571,9 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             aux, lambda_y[i] = boxcox_fmin(aux[~idx])
             mu_y[i] = np.mean(aux)
             sigma_y[i] = np.std(aux, ddof=1)
-            aux = stats.zscore(aux, ddof=1)
+            # A constant can't be scaled
+            is_constant = len(np.unique(self.y[~idx, i])) <= 1
+            aux = np.zeros_like(aux) if is_constant else stats.zscore(aux, ddof=1)
             self.y[~idx, i] = aux
 
         return _NormaliseOut(
-- 
2.43.0


From bf9a3c011b7a0d7be6e4947997ba5153be62810e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 11/60] fix: normalise the relative performance in PRELIM, and
 leave the raw one as it is

With relative performance the raw values were normalised instead. Zeros were
replaced in the array of raw values as well, as both are the same array.
---
 instancespace/stages/prelim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 71a92d3..49f8e28 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -638,7 +638,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
                 msg = msg + "higher than " + str(prelim_opts.epsilon)
             else:
                 y_best[y_best == 0] = np.finfo(float).eps
-                y[y == 0] = np.finfo(float).eps
+                y = np.where(y == 0, np.finfo(float).eps, y)
                 y = 1 - y / y_best[:, np.newaxis]
                 y_bin = (1 - y_aux / y_best[:, np.newaxis]) <= prelim_opts.epsilon
                 msg = (
@@ -662,7 +662,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
                 msg = msg + "less than " + str(prelim_opts.epsilon)
             else:
                 y_best[y_best == 0] = np.finfo(float).eps
-                y[y == 0] = np.finfo(float).eps
+                y = np.where(y == 0, np.finfo(float).eps, y)
                 y = 1 - y_best[:, np.newaxis] / y
                 y_bin = (1 - y_best[:, np.newaxis] / y_aux) <= prelim_opts.epsilon
                 msg = (
@@ -708,6 +708,8 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         sigma_y = np.zeros(nalgos)
 
         if prelim_opts.norm:
+            self.x = x
+            self.y = y
             normalise_out = self._normalise()
             x = normalise_out.x
             min_x = normalise_out.min_x
-- 
2.43.0


From a4bde781b28a4ff280d65d3feb98ace491e6c4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 12/60] fix: the best algorithm is good when the best
 performance is zero

Only the best performance was kept from being zero, not what is compared to
it, so no algorithm was within any margin of it when maximising.
---
 instancespace/stages/prelim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 49f8e28..ea63b60 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -640,6 +640,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
                 y_best[y_best == 0] = np.finfo(float).eps
                 y = np.where(y == 0, np.finfo(float).eps, y)
                 y = 1 - y / y_best[:, np.newaxis]
+                y_aux[y_aux == 0] = np.finfo(float).eps
                 y_bin = (1 - y_aux / y_best[:, np.newaxis]) <= prelim_opts.epsilon
                 msg = (
                     msg
@@ -664,6 +665,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
                 y_best[y_best == 0] = np.finfo(float).eps
                 y = np.where(y == 0, np.finfo(float).eps, y)
                 y = 1 - y_best[:, np.newaxis] / y
+                y_aux[y_aux == 0] = np.finfo(float).eps
                 y_bin = (1 - y_best[:, np.newaxis] / y_aux) <= prelim_opts.epsilon
                 msg = (
                     msg
-- 
2.43.0


From 243932d34a765b41645f8a6c96f306a4b8cd9565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:12 +0000
Subject: [PATCH 13/60] fix: the indices of the instances to use count from 1
 up to the last instance

The last instance could not be selected, and an index of 0 selected it.
---
 instancespace/stages/prelim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index ea63b60..4a70f20 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -816,7 +816,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             subset_index = np.zeros(ninst, dtype=bool)
             aux = np.genfromtxt(selvars_opts.file_idx, delimiter=",", dtype=int)
             print("aux:", aux)
-            aux = aux[aux < ninst]
+            aux = aux[(aux >= 1) & (aux <= ninst)]
 
             for i in range(len(aux)):
                 aux[i] = aux[i] - 1
-- 
2.43.0


From 2eb6a8c1049260796e0c23e87c7f0635bad5723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 14/60] fix: the labels of a single instance are a series too

---
 instancespace/data/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index ddc87c9..cdf2c75 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -46,14 +46,14 @@ class Metadata:
         is_algo = var_labels.str.lower().str.startswith("algo_")
         is_source = var_labels.str.lower() == "source"
 
-        instance_labels = data.loc[:, is_name].squeeze()
+        instance_labels = data.loc[:, is_name].squeeze(axis="columns")
 
         if pd.api.types.is_numeric_dtype(instance_labels):
             instance_labels = instance_labels.astype(str)
 
         source_column = None
         if is_source.any():
-            source_column = data.loc[:, is_source].squeeze()
+            source_column = data.loc[:, is_source].squeeze(axis="columns")
 
         features_raw = data.loc[:, is_feat]
         algo_raw = data.loc[:, is_algo]
-- 
2.43.0


From e9491b71b67d127185a06f653cef276ad4dc1e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 15/60] fix: metadata that isn't text is an error when reading
 it, like any other

---
 instancespace/data/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index cdf2c75..dab549f 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -108,7 +108,7 @@ def from_csv_file(file_path: Path | str) -> Metadata | None:
 
     try:
         csv_df = pd.read_csv(file_path)
-    except (FileNotFoundError, OSError, pd.errors.ParserError) as e:
+    except (OSError, UnicodeDecodeError, pd.errors.ParserError) as e:
         print(f"{file_path}: {e!s}")
         return None
     except pd.errors.EmptyDataError as err:
-- 
2.43.0


From d858aad6ff7ef44098adfb0a1f0e29a44fb74355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 16/60] fix: options that aren't a JSON object are invalid

They raised an AttributeError, which from_json_file doesn't expect.
---
 instancespace/data/options.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/instancespace/data/options.py b/instancespace/data/options.py
index 7926449..8d8fea7 100644
--- a/instancespace/data/options.py
+++ b/instancespace/data/options.py
@@ -419,6 +419,9 @@ class InstanceSpaceOptions:
             If the JSON file contains undefined sub options.
 
         """
+        if not isinstance(file_contents, dict):
+            raise ValueError("The options are not a JSON object.")
+
         # Validate if the top-level fields match those in the InstanceSpaceOptions class
         options_fields = {f.name for f in fields(InstanceSpaceOptions)}
         extra_fields = set(file_contents.keys()) - options_fields
@@ -678,6 +681,9 @@ class InstanceSpaceOptions:
             If the dictionary contains keys that are not valid fields in the dataclass.
 
         """
+        if not isinstance(data, dict):
+            raise ValueError(f"{data_class.__name__} in JSON is not an object.")
+
         if field_mapping is None:
             field_mapping = {}
 
-- 
2.43.0


From 60cc57858c171849728560882dac11b42cde5646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 17/60] fix: the default options need no arguments, as
 documented

---
 instancespace/data/options.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/instancespace/data/options.py b/instancespace/data/options.py
index 8d8fea7..6a76900 100644
--- a/instancespace/data/options.py
+++ b/instancespace/data/options.py
@@ -538,18 +538,18 @@ class InstanceSpaceOptions:
 
     @staticmethod
     def default(
-        parallel: ParallelOptions | None,
-        perf: PerformanceOptions | None,
-        auto: AutoOptions | None,
-        bound: BoundOptions | None,
-        norm: NormOptions | None,
-        selvars: SelvarsOptions | None,
-        sifted: SiftedOptions | None,
-        pilot: PilotOptions | None,
-        cloister: CloisterOptions | None,
-        pythia: PythiaOptions | None,
-        trace: TraceOptions | None,
-        outputs: OutputOptions | None,
+        parallel: ParallelOptions | None = None,
+        perf: PerformanceOptions | None = None,
+        auto: AutoOptions | None = None,
+        bound: BoundOptions | None = None,
+        norm: NormOptions | None = None,
+        selvars: SelvarsOptions | None = None,
+        sifted: SiftedOptions | None = None,
+        pilot: PilotOptions | None = None,
+        cloister: CloisterOptions | None = None,
+        pythia: PythiaOptions | None = None,
+        trace: TraceOptions | None = None,
+        outputs: OutputOptions | None = None,
     ) -> InstanceSpaceOptions:
         """Instantiate with default values."""
         return InstanceSpaceOptions(
-- 
2.43.0


From ec11bf4545afc3a9bd429a39ddb36d0dbaa495a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:02 +0000
Subject: [PATCH 18/60] fix: PILOT's numerical solution left the first
 algorithm out of C

---
 instancespace/stages/pilot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 73503af..1327244 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -265,7 +265,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             out_z = x @ out_a.T
             b = alpha[2 * n :, idx].reshape(m, 2)
             x_hat = out_z @ b.T
-            out_c = b[n + 1 : m, :].T
+            out_c = b[n:m, :].T
             out_b = b[:n, :]
             error = np.sum((x_bar - x_hat) ** 2)
             r2 = np.diag(np.corrcoef(x_bar, x_hat) ** 2).astype(np.double)
-- 
2.43.0


From 661cfeb214a8cbf4a56dd85678cdebfceab1656c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:02 +0000
Subject: [PATCH 19/60] fix: R2 of PILOT's numerical solution compares the data
 to its approximation

It was the correlation of every instance with itself, which is always 1.
---
 instancespace/stages/pilot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 1327244..96129f5 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -268,7 +268,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             out_c = b[n:m, :].T
             out_b = b[:n, :]
             error = np.sum((x_bar - x_hat) ** 2)
-            r2 = np.diag(np.corrcoef(x_bar, x_hat) ** 2).astype(np.double)
+            r2 = np.diag(np.corrcoef(x_bar, x_hat, rowvar=False)[:m, m:]) ** 2
 
         if options.analytic:
             summary = pd.DataFrame(out_a)
-- 
2.43.0


From 4f298771b30cda4b17ecfad0d259ecca0a6bee50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:02 +0000
Subject: [PATCH 20/60] fix: PILOT can use a pre-calculated solution

Which of the solutions to use was never set.
---
 instancespace/stages/pilot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 96129f5..b30d650 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -227,6 +227,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
                     _do_output,
                 )
                 alpha = options.alpha
+                idx = 0
             else:
                 if options.x0 is not None:
                     PilotStage._pilot_print(
-- 
2.43.0


From 520f9e1e8cdfebedca6f20d3bba17cddbd913bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:02 +0000
Subject: [PATCH 21/60] fix: PILOT can use the starting points or solution of
 an options file

---
 instancespace/stages/pilot.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index b30d650..7173735 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -200,6 +200,9 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
         """
         n = x.shape[1]
         x_bar = np.concatenate((x, y), axis=1)
+        # These are lists when they come from an options file
+        given_alpha = None if options.alpha is None else np.asarray(options.alpha)
+        given_x0 = None if options.x0 is None else np.asarray(options.x0)
         m = x_bar.shape[1]
         hd = pdist(x).T
 
@@ -221,21 +224,21 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
 
         # Numerical solution
         else:
-            if options.alpha is not None and options.alpha.shape == (2 * m + 2 * n, 1):
+            if given_alpha is not None and given_alpha.shape == (2 * m + 2 * n, 1):
                 PilotStage._pilot_print(
                     " -> PILOT is using a pre-calculated solution.",
                     _do_output,
                 )
-                alpha = options.alpha
+                alpha = given_alpha
                 idx = 0
             else:
-                if options.x0 is not None:
+                if given_x0 is not None:
                     PilotStage._pilot_print(
                         "  -> PILOT is using a user defined starting points"
                         " for BFGS.",
                         _do_output,
                     )
-                    x0 = options.x0
+                    x0 = given_x0
                 else:
                     PilotStage._pilot_print(
                         "  -> PILOT is using random starting points for BFGS.",
-- 
2.43.0


From b505a20f16f42ceadc4ea3630d305b3e56d9b94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:02 +0000
Subject: [PATCH 22/60] fix: do not round PILOT's solution to half precision

The projection was made from the rounded solution, so it was not the one that
was optimised, and a value over 65504 became infinite.
---
 instancespace/stages/pilot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 7173735..4e1bae0 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -291,7 +291,6 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
         summary = rldf.join(summary)
 
         if alpha is not None and x0 is not None:
-            alpha = alpha.astype(np.float16)
             x_init: NDArray[np.double] = x0
             pout = PilotOutput(
                 x_init,
@@ -524,7 +523,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             idx = np.argmax(perf).astype(int)
             PilotStage._pilot_print(f"Pilot has completed trial {i + 1}", _do_output)
 
-            al: NDArray[np.float16] = alpha.astype(np.float16)
+            al: NDArray[np.double] = alpha
             ept: NDArray[np.double] = eoptim
             prf: NDArray[np.double] = perf
 
-- 
2.43.0


From e5bdb1e9d886677f38d46defe174684f694dd9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:59 +0000
Subject: [PATCH 23/60] fix: SIFTED selects the features whose absolute
 correlation is high enough

The ranked features were selected by the signed correlation of other features,
those in the order of the data.
---
 instancespace/stages/sifted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 852ae08..cf988fd 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -747,7 +747,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         # Sort the correlations in descending order
         row = np.argsort(-filtered_rho, axis=0)
-        # sorted_rho = np.take_along_axis(rho, row, axis=0)
+        sorted_rho = np.take_along_axis(filtered_rho, row, axis=0)
 
         nfeats = self.x.shape[1]
         selvars = np.zeros(nfeats, dtype=bool)
@@ -757,7 +757,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         # Take any feature that has correlation at least equal to opts.rho
         for i in range(nfeats):
-            selvars[np.unique(row[i, rho[i, :] >= self.opts.rho])] = True
+            selvars[np.unique(row[i, sorted_rho[i, :] >= self.opts.rho])] = True
 
         # Get indices of selected features
         selvars = np.where(selvars)[0]
-- 
2.43.0


From bb40a3dcad9351ed2ee02a23f5b7e7787548a7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:15 +0000
Subject: [PATCH 24/60] fix: SIFTED returns the indices of the features it
 selected

The indices of all features went with the labels of the selected ones, so the
raw features could not be written to a CSV file under those labels.
---
 instancespace/stages/sifted.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index cf988fd..ef33c71 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -615,7 +615,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                idx[selvars],
                 rho,
                 pval,
                 None,
@@ -641,7 +641,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                idx[selvars],
                 rho,
                 pval,
                 None,
@@ -683,7 +683,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                idx[selvars],
                 rho,
                 pval,
                 silhouette_scores,
@@ -703,7 +703,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             s,
             [feat_labels[i] for i in selvars],
             selvars,
-            idx,
+            idx[selvars],
             rho,
             pval,
             silhouette_scores,
-- 
2.43.0


From 2e102dc6b6491770cf8a0481fc715d18750e37b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:15 +0000
Subject: [PATCH 25/60] fix: selecting instances by density after SIFTED
 selected features

---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index ef33c71..611a254 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -670,7 +670,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             if data_dense.s is not None:
                 s = data_dense.s[subset_index]
             return SiftedOutput(
-                data_dense.x[subset_index][:selvars],
+                data_dense.x[subset_index][:, selvars],
                 data_dense.y[subset_index][:],
                 data_dense.y_bin[subset_index][:],
                 data_dense.x_raw[subset_index][:],
-- 
2.43.0


From ac8de0e88ff4df4516cd5aa5271bf390c9092738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:15 +0000
Subject: [PATCH 26/60] fix: SIFTED evaluates combinations of the features in
 the clusters

The clusters are of the features that correlate with performance, but the
combinations were looked up in all the features.
---
 instancespace/stages/sifted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 611a254..490d19b 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -919,12 +919,12 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             ),
         )
 
-        ga_instance.selfx = self.x
+        ga_instance.selfx = x_aux
         ga_instance.selfy = self.y
         ga_instance.selfy_bin = self.y_bin
         ga_instance.cv_partition = cv_partition
         ga_instance.clust = clust
-        ga_instance.selffeat_labels = self.feat_labels
+        ga_instance.selffeat_labels = self.feat_labels[selvars]
 
         ga_instance.run()
 
-- 
2.43.0


From 9af1a3462ee3028aeefa6f1a79b203b6283b88f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:15 +0000
Subject: [PATCH 27/60] fix: SIFTED keeps the combination of features with the
 lowest error

The fitness is maximised, and was the error itself.
---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 490d19b..05458ff 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -854,7 +854,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             )
             y = max(y, -scores.mean())
 
-        return y
+        return -y
 
     def _find_best_combination(
         self,
-- 
2.43.0


From 0a921e9cdefa899427df538d349e62ab66d3dcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:15 +0000
Subject: [PATCH 28/60] fix: the score of the number of clusters that SIFTED
 suggests

The score of another number was printed, or none was found and it failed.
---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 05458ff..ad6634f 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -1000,7 +1000,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
         if max_k_silhoulette not in (self.opts.k, max_clusters):
             print(
                 f"    Suggested k value {max_k_silhoulette} with silhoulette score of",
-                f"{silhouette_scores[max_k_silhoulette]:.4f}",
+                f"{silhouette_scores[max_k_silhoulette_index]:.4f}",
             )
 
         # matlab returning numOfObservation, inspected K value, criterion values,
-- 
2.43.0


From fc6b09d891a5678706707cd9ceba096d76c8e289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:15 +0000
Subject: [PATCH 29/60] fix: SIFTED keeps all the features when it is turned
 off, as documented

---
 instancespace/stages/sifted.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index ad6634f..f624927 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -558,10 +558,10 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 "-> There is only 1 feature. Stopping space construction.",
             )
 
-        if nfeats <= SiftedStage.MIN_FEAT_REQUIRED:
+        if not opts.flag or nfeats <= SiftedStage.MIN_FEAT_REQUIRED:
             print(
-                "-> There are 3 or less features to do selection.",
-                "Skipping feature selection.",
+                "-> There are 3 or less features to do selection,",
+                "or it is turned off. Skipping feature selection.",
             )
             selvars = np.arange(nfeats)
             return SiftedOutput(
-- 
2.43.0


From c918448009cd702fe067b5343b50cb21c206f3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:15 +0000
Subject: [PATCH 30/60] fix: do not bound and scale when automatic
 pre-processing is turned off, as documented

---
 instancespace/data/options.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/options.py b/instancespace/data/options.py
index 6a76900..e1fe070 100644
--- a/instancespace/data/options.py
+++ b/instancespace/data/options.py
@@ -742,8 +742,8 @@ class PrelimOptions:
             abs_perf=options.perf.abs_perf,
             epsilon=options.perf.epsilon,
             beta_threshold=options.perf.beta_threshold,
-            bound=options.bound.flag,
-            norm=options.norm.flag,
+            bound=options.auto.preproc and options.bound.flag,
+            norm=options.auto.preproc and options.norm.flag,
         )
 
 
-- 
2.43.0


From 6368482c544a19940b6bc3c2f45bbbdf9174339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 31/60] fix: PYTHIA reports mu and sigma of the coordinates it
 normalises

---
 instancespace/stages/pythia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 1a80c62..7eae38a 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -646,9 +646,9 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         tuple[list[float], list[float], NDArray[np.double]]
         The mean, standard deviation and normalized feature coordinates.
         """
-        z = stats.zscore(z, ddof=1)
         mu = np.mean(z, axis=0)
         sigma = np.std(z, ddof=1, axis=0)
+        z = stats.zscore(z, ddof=1)
         return (mu, sigma, z)
 
     @staticmethod
-- 
2.43.0


From 051d24a2b18a089e9b16c1edd91fb686990aa014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 32/60] fix: PYTHIA accepts pre-calculated hyper-parameters

---
 instancespace/stages/pythia.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 7eae38a..b5edbba 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -407,7 +407,7 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             param_space = (
                 PythiaStage._generate_params(rng)
                 if precalcparams is None
-                else {"C": precalcparams[i][0], "gamma": precalcparams[i][1]}
+                else {"C": [precalcparams[i][0]], "gamma": [precalcparams[i][1]]}
             )
             res = PythiaStage._fitmatsvm(
                 z=z,
@@ -674,6 +674,7 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         """
         if params is None:
             return None
+        params = np.asarray(params, dtype=np.double)
         # Check if the shape of hyper-parameters is correct
         if params.shape != (nalgos, 2):
             print("-> Error: Incorrect number of hyper-parameters.")
-- 
2.43.0


From 66e5e1da3b164cce38f92efacac81774e4c9e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 33/60] fix: PYTHIA summary labels accuracy and precision the
 right way round

---
 instancespace/stages/pythia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index b5edbba..1984742 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -482,8 +482,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             y_best,
             selection0,
             selection1,
-            accuracy_record,
             precision_record,
+            accuracy_record,
             recall_record,
             box_consnt,
             k_scale,
-- 
2.43.0


From 45520acd393103686eb5f0306ce49335b7c58baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:23 +0000
Subject: [PATCH 34/60] fix: PYTHIA summary does not overwrite the caller's
 performance data

---
 instancespace/stages/pythia.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 1984742..68a104d 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -818,7 +818,11 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         # This variable stores the performance of the selected algorithms
         y_svms = y.copy()
 
-        y[~sel0] = np.nan
+        # This variable stores the performance of the algorithms, filtered based
+        # on selection0
+        y_sel = y.copy()
+
+        y_sel[~sel0] = np.nan
         y_full[~sel1] = np.nan
         y_svms[~y_hat] = np.nan
 
@@ -852,14 +856,14 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             "Avg_Perf_selected_instances": np.round(
                 np.append(
                     np.nanmean(y_svms, axis=0),
-                    np.array([np.nan, np.nanmean(y_full)]),
+                    np.array([np.nan, np.nanmean(y_sel)]),
                 ),
                 3,
             ),
             "Std_Perf_selected_instances": np.round(
                 np.append(
                     np.nanstd(y_svms, axis=0),
-                    np.array([np.nan, np.nanstd(y_full)]),
+                    np.array([np.nan, np.nanstd(y_sel)]),
                 ),
                 3,
             ),
-- 
2.43.0


From 434d7db784ffd48076304c86b94e03f77283344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 35/60] fix: the first algorithm is told apart from no
 selection in PYTHIA

---
 instancespace/data/model.py    |  6 ++++--
 instancespace/stages/pythia.py | 10 ++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/instancespace/data/model.py b/instancespace/data/model.py
index e2c890d..58ab8e5 100644
--- a/instancespace/data/model.py
+++ b/instancespace/data/model.py
@@ -341,8 +341,10 @@ class PythiaOut:
             precision=stage_runner_output["precision"],
             recall=stage_runner_output["recall"],
             accuracy=stage_runner_output["accuracy"],
-            selection0=stage_runner_output["selection0"],
-            selection1=stage_runner_output["selection1"],
+            # The stages count algorithms from 0, the model counts them from 1 and
+            # uses 0 where no algorithm is selected.
+            selection0=stage_runner_output["selection0"] + 1,
+            selection1=stage_runner_output["selection1"] + 1,
             summary=stage_runner_output["pythia_summary"],
         )
 
diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 68a104d..9e1b64c 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -144,7 +144,8 @@ class PythiaOutput(NamedTuple):
     recall : list[float]
         Recall scores for each algorithm
     selection0 : NDArray[np.int_]
-        The selected algorithm indices for each instance.
+        The selected algorithm indices for each instance, counted from 0, or
+        -1 where no algorithm is predicted to be good.
     selection1 : NDArray[np.int_]
         The backup selected algorithm indices for each instance.
     summary : pd.DataFrame
@@ -724,7 +725,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             selection0 = y_hat.astype(np.int_)
 
         selection1 = np.copy(selection0)
-        selection0[best <= 0] = 0
+        # -1 stands for no algorithm, as 0 is the index of the first one
+        selection0[best <= 0] = -1
         selection1[best <= 0] = default
         return (selection0, selection1)
 
@@ -803,8 +805,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         print("  -> PYTHIA is preparing the summary table.")
 
         # Obtain the corresponding selection matrix for the two selections.
-        sel0 = selection0[:, np.newaxis] == np.arange(1, nalgos + 1)
-        sel1 = selection1[:, np.newaxis] == np.arange(1, nalgos + 1)
+        sel0 = selection0[:, np.newaxis] == np.arange(nalgos)
+        sel1 = selection1[:, np.newaxis] == np.arange(nalgos)
 
         # Compute the average performance of the selected algorithms
         avgperf = np.round(np.nanmean(y, axis=0), 3)
-- 
2.43.0


From ae58b8de41db92135fabcc2a28c4ffdf7553b5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 36/60] fix: PYTHIA selects one algorithm per instance when
 there is only one

---
 instancespace/stages/pythia.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 9e1b64c..ec37680 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -721,8 +721,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             # Get the index of the maximum value in each row
             selection0 = np.argmax(weighted_yhat, axis=1)
         else:
-            best = y_hat
-            selection0 = y_hat.astype(np.int_)
+            best = y_hat[:, 0].astype(np.double)
+            selection0 = np.zeros(best.shape, dtype=np.int_)
 
         selection1 = np.copy(selection0)
         # -1 stands for no algorithm, as 0 is the index of the first one
-- 
2.43.0


From e76b0996c895103b480c0ecbe8de6895422e3215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 37/60] fix: PYTHIA cross-validated predictions use the
 instance weights

---
 instancespace/stages/pythia.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index ec37680..231136f 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -381,7 +381,7 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         if opts.use_weights:
             print(" -> PYTHIA is using cost-sensitive classification.")
             w = np.abs(y - np.nanmean(y))
-            w[w == 0] = np.min(w[w != 0])
+            w[w == 0] = np.nanmin(w[w != 0])
             w[np.isnan(w)] = np.max(w[~np.isnan(w)])
         else:
             print(" -> PYTHIA is not using cost-sensitive classification.")
@@ -585,11 +585,22 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         g = optimization.best_params_["gamma"]
 
         # Perform cross-validated predictions using the best SVM model
-        y_sub = cross_val_predict(best_svm, z, y_bin, cv=skf, method="predict")
-        p_sub = cross_val_predict(best_svm, z, y_bin, cv=skf, method="predict_proba")[
-            :,
-            1,
-        ]
+        y_sub = cross_val_predict(
+            best_svm,
+            z,
+            y_bin,
+            cv=skf,
+            method="predict",
+            params={"sample_weight": w},
+        )
+        p_sub = cross_val_predict(
+            best_svm,
+            z,
+            y_bin,
+            cv=skf,
+            method="predict_proba",
+            params={"sample_weight": w},
+        )[:, 1]
         # Predict the labels and probabilities for the entire dataset
         y_hat = best_svm.predict(z)
         p_hat = best_svm.predict_proba(z)[:, 1]
-- 
2.43.0


From e59b090faeb07e3d0161dc1e283fa027ab80b0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:25 +0000
Subject: [PATCH 38/60] fix: TRACE no longer crashes while resolving
 contradicting footprints

---
 instancespace/stages/trace.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/instancespace/stages/trace.py b/instancespace/stages/trace.py
index 4e0ae99..94d93ac 100644
--- a/instancespace/stages/trace.py
+++ b/instancespace/stages/trace.py
@@ -642,7 +642,12 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
                 print("        -> Ignoring the contradicting area.")
                 break
 
-            if base_polygon.is_empty or test_polygon.is_empty:
+            if (
+                base_polygon is None
+                or test_polygon is None
+                or base_polygon.is_empty
+                or test_polygon.is_empty
+            ):
                 break
 
             contradiction = base_polygon.intersection(test_polygon)
@@ -685,17 +690,17 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
         refined_polygons = []
 
         for i in range(n_polygons):
-            criteria = np.logical_and(splits[i].contains(MultiPoint(self.z)), y_bin)
-            polydata = self.z[criteria]
+            contained = np.array(
+                [splits[i].contains(point) for point in MultiPoint(self.z).geoms],
+                dtype=np.bool_,
+            )
+            criteria = np.logical_and(contained, y_bin)
+            polydata = np.unique(self.z[criteria], axis=0)
 
             if polydata.shape[0] < POLYGON_MIN_POINT_REQUIREMENT:
                 continue
 
-            temp_polygon = Polygon(polydata)
-
-            boundary = temp_polygon.boundary
-            filtered_polydata = polydata[boundary]
-            aux = self.fit_poly(filtered_polydata, y_bin)
+            aux = self.fit_poly(polydata, y_bin)
 
             if aux:
                 refined_polygons.append(aux)
-- 
2.43.0


From 9fbd97eb94ca3422b7c5906d9bcda45d85f2b28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 39/60] fix: TRACE no longer crashes on clusters of collinear
 instances

---
 instancespace/stages/trace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/instancespace/stages/trace.py b/instancespace/stages/trace.py
index 94d93ac..b1f92e9 100644
--- a/instancespace/stages/trace.py
+++ b/instancespace/stages/trace.py
@@ -732,6 +732,10 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
         if polydata.shape[0] < POLYGON_MIN_POINT_REQUIREMENT:
             return None
 
+        # Points on a single line do not span a polygon
+        if np.linalg.matrix_rank(polydata - polydata[0]) < polydata.shape[1]:
+            return None
+
         polygon = alphashape.alphashape(polydata, 2.15).simplify(
             0.05,
         )
-- 
2.43.0


From eff8a51dbebeb6824fcfa39ce34d38f3a5ac8197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:38 +0000
Subject: [PATCH 40/60] fix: saving to csv does not rename columns of the
 model's summaries

---
 instancespace/_serialisers.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 3c368b4..30b2db0 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -184,16 +184,14 @@ def save_instance_space_to_csv(
     )
 
     if pilot_out.summary is not None:
-        pilot_summary = pilot_out.summary
-        pilot_summary.rename(columns={0: "Row"}, inplace=True)
-        pilot_out.summary.to_csv(
+        pilot_summary = pilot_out.summary.rename(columns={0: "Row"})
+        pilot_summary.to_csv(
             output_directory / "projection_matrix.csv",
             index=False,
         )
 
-    pythia_summary = pythia_out.summary
-    pythia_summary.rename(columns={"Algorithms": "Row"}, inplace=True)
-    pythia_out.summary.to_csv(
+    pythia_summary = pythia_out.summary.rename(columns={"Algorithms": "Row"})
+    pythia_summary.to_csv(
         output_directory / "svm_table.csv",
         index=False,
     )
-- 
2.43.0


From c7b88faba3dfe82bcb3b4ae522ff8384428d3fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:38 +0000
Subject: [PATCH 41/60] fix: web colours stay within the colour table for
 constant or missing data

---
 instancespace/_serialisers.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 30b2db0..61ee9d4 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -425,9 +425,13 @@ def _make_bind_labels(
 def _colour_scale(
     data: NDArray[np._NumberType],
 ) -> NDArray[np.int_]:
-    data_range = np.max(data, axis=0) - np.min(data, axis=0)
+    data = np.asarray(data, dtype=np.double)
+    data_min = np.nanmin(data, axis=0)
+    data_range = np.nanmax(data, axis=0) - data_min
+    # Columns without any spread, and missing values, get the lowest colour
+    data_range = np.where(data_range == 0, 1, data_range)
     out: NDArray[np.int_] = np.floor(
-        255.0 * ((data - np.min(data, axis=0)) / data_range),
+        np.nan_to_num(255.0 * ((data - data_min) / data_range)),
     ).astype(np.int_)
 
     return out
@@ -436,9 +440,13 @@ def _colour_scale(
 def _colour_scale_g(
     data: NDArray[np._NumberType],
 ) -> NDArray[np.int_]:
-    data_range = np.max(data) - np.min(data)
+    data = np.asarray(data, dtype=np.double)
+    data_min = np.nanmin(data)
+    data_range = np.nanmax(data) - data_min
+    # Data without any spread, and missing values, get the lowest colour
+    data_range = 1 if data_range == 0 else data_range
     out: NDArray[np.int_] = np.round(
-        255.0 * ((data - np.min(data)) / data_range),
+        np.nan_to_num(255.0 * ((data - data_min) / data_range)),
     ).astype(np.int_)
 
     return out
-- 
2.43.0


From 94d02e32ce9dc6188e2068d204ee4d53a053a2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:38 +0000
Subject: [PATCH 42/60] fix: performance graphs are normalised individually and
 globally

---
 instancespace/_serialisers.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 61ee9d4..5550e2c 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -275,15 +275,18 @@ def save_instance_space_graphs(
     num_feats = data.x.shape[1]
     num_algorithms = data.y.shape[1]
 
-    x_range = np.max(data.x, axis=0) - np.min(data.x, axis=0)
-    x_aux = (data.x - np.min(data.x, axis=0)) / x_range
+    x_range = np.nanmax(data.x, axis=0) - np.nanmin(data.x, axis=0)
+    x_range = np.where(x_range == 0, 1, x_range)
+    x_aux = (data.x - np.nanmin(data.x, axis=0)) / x_range
 
-    y_raw_range = np.max(data.y_raw, axis=0) - np.min(data.y_raw, axis=0)
-    y_ind = data.y_raw - np.min(data.y_raw, axis=0) / y_raw_range
+    y_raw_range = np.nanmax(data.y_raw, axis=0) - np.nanmin(data.y_raw, axis=0)
+    y_raw_range = np.where(y_raw_range == 0, 1, y_raw_range)
+    y_ind = (data.y_raw - np.nanmin(data.y_raw, axis=0)) / y_raw_range
 
     y_glb = np.log10(data.y_raw + 1)
-    y_glb_range = np.max(y_glb, axis=0) - np.min(y_glb, axis=0)
-    y_glb = (y_glb - np.min(y_glb)) / y_glb_range
+    y_glb_range = np.nanmax(y_glb) - np.nanmin(y_glb)
+    y_glb_range = 1 if y_glb_range == 0 else y_glb_range
+    y_glb = (y_glb - np.nanmin(y_glb)) / y_glb_range
 
     if options.trace.use_sim:
         y_foot = pythia.y_hat
@@ -497,8 +500,8 @@ def _draw_scatter(
 ) -> None:
     plt.clf()
 
-    upper_bound = np.max(x)
-    lower_bound = np.min(x)
+    upper_bound = np.nanmax(x)
+    lower_bound = np.nanmin(x)
 
     cmap = plt.colormaps["viridis"]
     fig, ax2 = plt.subplots()
-- 
2.43.0


From b0dc49f542a1030b223f39bb2e1276a6b33b9795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:38 +0000
Subject: [PATCH 43/60] fix: portfolio graphs draw every algorithm with its own
 footprint

---
 instancespace/_serialisers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 5550e2c..3b9a8e2 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -556,7 +556,7 @@ def _draw_portfolio_selections(
 
     norm = Normalize(lower_bound, upper_bound)
 
-    for i in range(num_algorithms):
+    for i in range(num_algorithms + 1):
         if not is_worthy[i]:
             continue
 
@@ -606,7 +606,7 @@ def _draw_portfolio_footprint(
 
     norm = Normalize(lower_bound, upper_bound)
 
-    for i in range(num_algorithms):
+    for i in range(num_algorithms + 1):
         if not is_worthy[i]:
             continue
 
@@ -620,7 +620,8 @@ def _draw_portfolio_footprint(
             label="None" if i == 0 else algorithm_labels[i - 1].replace("_", " "),
         )
 
-        _draw_footprint(ax, best[i], cmap(norm(i)), 0.3)
+        if i > 0:
+            _draw_footprint(ax, best[i - 1], cmap(norm(i)), 0.3)
 
     ax.set_xlabel("z_{1}")
     ax.set_ylabel("z_{2}")
-- 
2.43.0


From 87c326a5fb3ae686c3fa2fe897a364b38d7d1b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:38 +0000
Subject: [PATCH 44/60] fix: close the sources figure once it is saved

---
 instancespace/_serialisers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 3b9a8e2..1b86144 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -491,6 +491,8 @@ def _draw_sources(
 
     fig.savefig(output)
 
+    plt.close(fig)
+
 
 def _draw_scatter(
     z: NDArray[Any],
-- 
2.43.0


From a38ced47fa1aa07bc187567d6c24407bd739c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:07 +0000
Subject: [PATCH 45/60] fix: the order of CLOISTER's boundary points no longer
 depends on the machine

---
 instancespace/stages/cloister.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/cloister.py b/instancespace/stages/cloister.py
index b037358..d639629 100644
--- a/instancespace/stages/cloister.py
+++ b/instancespace/stages/cloister.py
@@ -277,7 +277,11 @@ class CloisterStage(Stage[CloisterInput, CloisterOutput]):
         """
         try:
             hull = ConvexHull(points)
-            return points[hull.vertices, :]
+            vertices = points[hull.vertices, :]
+            # Where Qhull starts depends on how the machine rounds, so start from
+            # the leftmost vertex
+            first = np.lexsort((vertices[:, 1], vertices[:, 0]))[0]
+            return np.roll(vertices, -first, axis=0)
         except QhullError as qe:
             logger.info("QhullError: Encountered geometrical degeneracy:", str(qe))
             return np.array([])
-- 
2.43.0


From b24425dbdeedd26a444654ef6814f0c3669a657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:54 +0000
Subject: [PATCH 46/60] fix: do not shift the columns of metadata files with
 surplus cells

---
 instancespace/data/metadata.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index dab549f..dc18c1c 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -5,6 +5,7 @@ These classes define types for problem instances found in the metadata.csv file.
 
 from __future__ import annotations
 
+import warnings
 from dataclasses import dataclass
 from pathlib import Path
 
@@ -107,8 +108,17 @@ def from_csv_file(file_path: Path | str) -> Metadata | None:
         file_path = Path(file_path)
 
     try:
-        csv_df = pd.read_csv(file_path)
-    except (OSError, UnicodeDecodeError, pd.errors.ParserError) as e:
+        with warnings.catch_warnings():
+            # Rows with more cells than the header has columns would otherwise be
+            # read as if their first cell was an index, shifting all columns.
+            warnings.simplefilter("error", pd.errors.ParserWarning)
+            csv_df = pd.read_csv(file_path, index_col=False)
+    except (
+        OSError,
+        UnicodeDecodeError,
+        pd.errors.ParserError,
+        pd.errors.ParserWarning,
+    ) as e:
         print(f"{file_path}: {e!s}")
         return None
     except pd.errors.EmptyDataError as err:
-- 
2.43.0


From df286c413cac8fcfd9b618c73b0ef9a4fbf614a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:46 +0000
Subject: [PATCH 47/60] fix: never label a missing performance as good

---
 instancespace/stages/prelim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 4a70f20..75e04a9 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -676,6 +676,9 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
 
         print(msg)
 
+        # A missing performance is never good
+        y_bin = y_bin & ~np.isnan(y_raw)
+
         num_good_algos, p, beta = self._select_best_algorithms(
             y_raw,
             y_best,
-- 
2.43.0


From 16e9d6b700d8b52ff5adffc363f39c81899136a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:17 +0000
Subject: [PATCH 48/60] fix: do not normalise with a lambda that is numerically
 unusable

---
 instancespace/stages/prelim.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 75e04a9..a0a0d44 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -535,6 +535,13 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             # Use the optimal lambda to perform the Box-Cox transformation
             transformed_data = stats.boxcox(data, optimal_lambda)
 
+            # Data that is far from the minimum compared to its spread can have an
+            # extreme lambda, with which the values overflow or can't be told apart
+            largest = np.max(np.abs(transformed_data))
+            spread = np.ptp(transformed_data)
+            if not (largest < 1e100 and spread > 1e-8 * largest):
+                return data - 1, 1.0
+
             return transformed_data, optimal_lambda[0]
 
         nfeats = self.x.shape[1]
-- 
2.43.0


From bb69dba9064279d54d0d5e77d02ed7bca09719cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:13 +0000
Subject: [PATCH 49/60] fix: allow for a single pair of values when computing
 correlations

---
 instancespace/stages/sifted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index f624927..012d69a 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -1045,14 +1045,14 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 # Filter out NaN values of pairs
                 valid_indices = ~np.isnan(x_col) & ~np.isnan(y_col)
 
-                if np.any(valid_indices):
+                if np.sum(valid_indices) > 1:
                     # Compute Pearson correlation for valid pairs
                     rho[i, j], pval[i, j] = pearsonr(
                         x_col[valid_indices],
                         y_col[valid_indices],
                     )
                 else:
-                    # Set value to Nan if there is no valid pairs
+                    # Set value to Nan if there are not enough valid pairs
                     rho[i, j], pval[i, j] = np.nan, np.nan
 
         return (rho, pval)
-- 
2.43.0


From be762d8f35641e261c4827e4540311e02424bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:54 +0000
Subject: [PATCH 50/60] fix: keep the directories of files in archives

---
 instancespace/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instancespace/model.py b/instancespace/model.py
index 3f2c88f..ecf0168 100644
--- a/instancespace/model.py
+++ b/instancespace/model.py
@@ -164,8 +164,11 @@ class Model:
             zipfile.ZIP_DEFLATED,
         ) as zf:
             for root, _, files in os.walk(output_directory):
+                # Files of nested directories stay in these, as two of them may have
+                # the same name
+                directory = Path(dir_name) / Path(root).relative_to(output_directory)
                 for filename in files:
                     if filename in ignored_files:
                         continue
-                    zf.write(Path(root) / filename, arcname=Path(dir_name) / filename)
+                    zf.write(Path(root) / filename, arcname=directory / filename)
         print(f"-> Successfully saved files into {zip_filename}.")
-- 
2.43.0


From 52b407672b3a6d7c6c8dc6b9c7abd1fabccc2131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:54 +0000
Subject: [PATCH 51/60] fix: show the instances beyond the usual space in
 graphs

---
 instancespace/_serialisers.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 1b86144..13772cb 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -455,6 +455,16 @@ def _colour_scale_g(
     return out
 
 
+def _set_limits(ax: Axes, z: NDArray[Any]) -> None:
+    # All instances are within the limits, which are at least those of the usual space
+    z = np.asarray(z, dtype=np.double)
+    finite = z[np.isfinite(z).all(axis=1)]
+    low = np.min(finite, axis=0, initial=-5)
+    high = np.max(finite, axis=0, initial=5)
+    ax.set_xlim((low[0], high[0]))
+    ax.set_ylim((low[1], high[1]))
+
+
 def _draw_sources(
     z: NDArray[Any],
     s: NDArray[np.str_],
@@ -468,8 +478,7 @@ def _draw_sources(
     cmap = plt.colormaps["viridis"]
     fig, ax2 = plt.subplots()
     ax: Axes = ax2
-    ax.set_xlim((-5, 5))
-    ax.set_ylim((-5, 5))
+    _set_limits(ax, z)
     fig.suptitle("Sources")
 
     norm = Normalize(lower_bound, upper_bound)
@@ -513,8 +522,7 @@ def _draw_scatter(
     norm = Normalize(lower_bound, upper_bound)
 
     ax.scatter(z[:, 0], z[:, 1], s=8, c=x, norm=norm, cmap=cmap)
-    ax.set_xlim((-5, 5))
-    ax.set_ylim((-5, 5))
+    _set_limits(ax, z)
     ax.set_xlabel("z_{1}")
     ax.set_ylabel("z_{2}")
     fig.colorbar(
@@ -552,8 +560,7 @@ def _draw_portfolio_selections(
     cmap = plt.colormaps["viridis"]
     fig, ax2 = plt.subplots()
     ax: Axes = ax2
-    ax.set_xlim((-5, 5))
-    ax.set_ylim((-5, 5))
+    _set_limits(ax, z)
     fig.suptitle(title_label)
 
     norm = Normalize(lower_bound, upper_bound)
@@ -602,8 +609,7 @@ def _draw_portfolio_footprint(
     cmap = plt.colormaps["viridis"]
     fig, ax2 = plt.subplots()
     ax: Axes = ax2
-    ax.set_xlim((-5, 5))
-    ax.set_ylim((-5, 5))
+    _set_limits(ax, z)
     fig.suptitle("Portfolio footprints")
 
     norm = Normalize(lower_bound, upper_bound)
@@ -650,8 +656,7 @@ def _draw_good_bad_footprint(
     fig, ax2 = plt.subplots()
     ax: Axes = ax2
     fig.suptitle(title_label)
-    ax.set_xlim((-5, 5))
-    ax.set_ylim((-5, 5))
+    _set_limits(ax, z)
     not_y_bin = y_bin == 0
     good_y_bin = y_bin == 1
 
@@ -706,8 +711,7 @@ def _draw_binary_performance(
         fig, ax2 = plt.subplots()
         ax: Axes = ax2
         fig.suptitle(title_label)
-        ax.set_xlim((-5, 5))
-        ax.set_ylim((-5, 5))
+        _set_limits(ax, z)
         not_y_bin = y_bin == 0
         good_y_bin = y_bin == 1
 
-- 
2.43.0


From 46ececfbee6d50a037834e3b7a87cf9f9fd2c236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:54 +0000
Subject: [PATCH 52/60] fix: do not choose a trial without a correlation when
 projecting numerically

---
 instancespace/stages/pilot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 4e1bae0..fad3d5a 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -520,7 +520,10 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             z = np.dot(x, a.T)
 
             perf[i], _ = pearsonr(hd, pdist(z))
-            idx = np.argmax(perf).astype(int)
+            # The correlation of a trial with a degenerate solution is undefined
+            idx = np.argmax(
+                np.where(np.isnan(perf[: i + 1]), -np.inf, perf[: i + 1]),
+            ).astype(int)
             PilotStage._pilot_print(f"Pilot has completed trial {i + 1}", _do_output)
 
             al: NDArray[np.double] = alpha
-- 
2.43.0


From 675d1680db72588a8e6aa3ddc5abe288009a7143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:21 +0000
Subject: [PATCH 53/60] fix: draw the footprints of a portfolio in the colours
 of their algorithms

---
 instancespace/_serialisers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 13772cb..59e6fdc 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -618,7 +618,7 @@ def _draw_portfolio_footprint(
         if not is_worthy[i]:
             continue
 
-        ax.scatter(
+        points = ax.scatter(
             z[p == i, 0],
             z[p == i, 1],
             s=8,
@@ -629,7 +629,9 @@ def _draw_portfolio_footprint(
         )
 
         if i > 0:
-            _draw_footprint(ax, best[i - 1], cmap(norm(i)), 0.3)
+            # The footprint has the colour of the instances of its algorithm
+            colour = tuple(points.get_facecolor()[0])
+            _draw_footprint(ax, best[i - 1], colour, 0.3)
 
     ax.set_xlabel("z_{1}")
     ax.set_ylabel("z_{2}")
-- 
2.43.0


From f10125c29ce23a292bf171227ab9092e5233b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:05 +0000
Subject: [PATCH 54/60] fix: do not end an iteration as complete after an
 earlier stage was ran again

---
 instancespace/stage_runner.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 3c687fe..fe8baa2 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -107,6 +107,13 @@ class StageRunner:
             for stage in schedule:
                 yield AnnotatedStageOutput(stage, self.run_stage(stage))
 
+        # Another run, or an earlier stage, may have been ran between two steps
+        if self._current_schedule_item < len(self._stage_order):
+            raise StageRunningError(
+                "The iteration ended without outputs of all stages, as earlier stages "
+                + "were ran again before its end.",
+            )
+
         return self._available_arguments
 
     def run_stage(
-- 
2.43.0


From 7d3f02a218b792ad942046275d49af12d7b07f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:47 +0000
Subject: [PATCH 55/60] fix: keep labels and sources that look like a number or
 a missing value

---
 instancespace/data/metadata.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index dc18c1c..761f597 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -112,7 +112,18 @@ def from_csv_file(file_path: Path | str) -> Metadata | None:
             # Rows with more cells than the header has columns would otherwise be
             # read as if their first cell was an index, shifting all columns.
             warnings.simplefilter("error", pd.errors.ParserWarning)
-            csv_df = pd.read_csv(file_path, index_col=False)
+            # Labels and sources are text, also if they look like a number or like a
+            # missing value.
+            text_columns = [
+                column
+                for column in pd.read_csv(file_path, index_col=False, nrows=0).columns
+                if column.lower() in ("instances", "source")
+            ]
+            csv_df = pd.read_csv(
+                file_path,
+                index_col=False,
+                converters={column: str for column in text_columns},
+            )
     except (
         OSError,
         UnicodeDecodeError,
-- 
2.43.0


From 0585730b2944b9fd793c0a8dc4b53ddd87666060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:24 +0000
Subject: [PATCH 56/60] fix: honour whole numbers as distances when filtering
 by density

---
 instancespace/stages/prelim.py | 2 +-
 instancespace/stages/sifted.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index a0a0d44..e2622d5 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -803,7 +803,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
 
         bydensity = (
             selvars_opts.density_flag
-            and isinstance(selvars_opts.min_distance, float)
+            and isinstance(selvars_opts.min_distance, float | int)
             and isinstance(selvars_opts.selvars_type, str)
         )
 
diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 012d69a..f889eb6 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -548,7 +548,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             and "density_flag" in opts_selvars.__dict__
             and opts_selvars.density_flag
             and "min_distance" in opts_selvars.__dict__
-            and isinstance(opts_selvars.min_distance, float)
+            and isinstance(opts_selvars.min_distance, float | int)
             and "selvars_type" in opts_selvars.__dict__
             and isinstance(opts_selvars.selvars_type, str)
         )
-- 
2.43.0


From fb48aabbb3d904843a9c339a6a808a6f456090dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:12 +0000
Subject: [PATCH 57/60] fix: infinite feature values become missing instead of
 the bound

---
 instancespace/stages/prelim.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index e2622d5..6831a48 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -460,9 +460,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         hi_mask = self.x > hi_bound
         lo_mask = self.x < lo_bound
 
-        self.x = self.x * ~(hi_mask | lo_mask)
-        self.x += np.multiply(hi_mask, np.broadcast_to(hi_bound, self.x.shape))
-        self.x += np.multiply(lo_mask, np.broadcast_to(lo_bound, self.x.shape))
+        self.x = np.where(hi_mask, hi_bound, np.where(lo_mask, lo_bound, self.x))
 
         return _BoundOut(
             x=self.x,
-- 
2.43.0


From 71272056648512b0098aaa7cc2f8e1645f4decf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:07 +0000
Subject: [PATCH 58/60] fix: negative performances are missing from the
 globally normalised graphs

---
 instancespace/_serialisers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 59e6fdc..303ddf8 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -283,7 +283,8 @@ def save_instance_space_graphs(
     y_raw_range = np.where(y_raw_range == 0, 1, y_raw_range)
     y_ind = (data.y_raw - np.nanmin(data.y_raw, axis=0)) / y_raw_range
 
-    y_glb = np.log10(data.y_raw + 1)
+    # Negative performances have no logarithm
+    y_glb = np.log10(data.y_raw - min(np.nanmin(data.y_raw), 0) + 1)
     y_glb_range = np.nanmax(y_glb) - np.nanmin(y_glb)
     y_glb_range = 1 if y_glb_range == 0 else y_glb_range
     y_glb = (y_glb - np.nanmin(y_glb)) / y_glb_range
-- 
2.43.0


From e422c16afe2197bcffe7ad3606fcd1394e95b9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:59 +0000
Subject: [PATCH 59/60] fix: more than ten sources or algorithms share colours
 in the graphs

---
 instancespace/_serialisers.py | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 303ddf8..f17c0f5 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -471,8 +471,6 @@ def _draw_sources(
     s: NDArray[np.str_],
     output: Path,
 ) -> None:
-    upper_bound = np.ceil(np.max(z))
-    lower_bound = np.floor(np.min(z))
     source_labels = np.unique(s)
     num_sources = len(source_labels)
 
@@ -482,16 +480,12 @@ def _draw_sources(
     _set_limits(ax, z)
     fig.suptitle("Sources")
 
-    norm = Normalize(lower_bound, upper_bound)
-
     for i in reversed(range(num_sources)):
         ax.scatter(
             z[s == source_labels[i], 0],
             z[s == source_labels[i], 1],
             s=8,
-            # c=source_labels[i],
-            norm=norm,
-            cmap=cmap,
+            color=cmap(i / num_sources),
             label=source_labels[i],
         )
 
@@ -547,8 +541,6 @@ def _draw_portfolio_selections(
     output: Path,
 ) -> None:
     plt.clf()
-    upper_bound = np.ceil(np.max(z))
-    lower_bound = np.floor(np.min(z))
     num_algorithms = len(algorithm_labels)
     # labels: list[str] = []
     # h = np.zeros((1, num_algorithms + 1))
@@ -564,8 +556,6 @@ def _draw_portfolio_selections(
     _set_limits(ax, z)
     fig.suptitle(title_label)
 
-    norm = Normalize(lower_bound, upper_bound)
-
     for i in range(num_algorithms + 1):
         if not is_worthy[i]:
             continue
@@ -574,9 +564,7 @@ def _draw_portfolio_selections(
             z[p == i, 0],
             z[p == i, 1],
             s=8,
-            # c=i,
-            norm=norm,
-            cmap=cmap,
+            color=cmap(i / num_algorithms),
             label="None" if i == 0 else algorithm_labels[i - 1].replace("_", " "),
         )
 
@@ -598,8 +586,6 @@ def _draw_portfolio_footprint(
 ) -> None:
 
     plt.clf()
-    upper_bound = np.ceil(np.max(z))
-    lower_bound = np.floor(np.min(z))
     num_algorithms = len(algorithm_labels)
 
     bsxfun_result = np.array(
@@ -613,8 +599,6 @@ def _draw_portfolio_footprint(
     _set_limits(ax, z)
     fig.suptitle("Portfolio footprints")
 
-    norm = Normalize(lower_bound, upper_bound)
-
     for i in range(num_algorithms + 1):
         if not is_worthy[i]:
             continue
@@ -623,9 +607,7 @@ def _draw_portfolio_footprint(
             z[p == i, 0],
             z[p == i, 1],
             s=8,
-            # c=i,
-            norm=norm,
-            cmap=cmap,
+            color=cmap(i / num_algorithms),
             label="None" if i == 0 else algorithm_labels[i - 1].replace("_", " "),
         )
 
-- 
2.43.0


From 4ff66bcc4bbdf33d54d030cd120affdcf58cde10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:19 +0000
Subject: [PATCH 60/60] fix: an archive in a nested directory does not contain
 itself

---
 instancespace/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/instancespace/model.py b/instancespace/model.py
index ecf0168..395d9f2 100644
--- a/instancespace/model.py
+++ b/instancespace/model.py
@@ -157,9 +157,10 @@ class Model:
             output_directory = Path(output_directory)
 
         dir_name = DEFAULT_DIRECTARY_NAME
-        ignored_files = [".gitignore", zip_filename]
+        ignored_files = [".gitignore"]
+        zip_path = output_directory / zip_filename
         with zipfile.ZipFile(
-            output_directory / zip_filename,
+            zip_path,
             "w",
             zipfile.ZIP_DEFLATED,
         ) as zf:
@@ -170,5 +171,9 @@ class Model:
                 for filename in files:
                     if filename in ignored_files:
                         continue
+                    # The archive may be in a nested directory, where other files may
+                    # have its name
+                    if zip_path.samefile(Path(root) / filename):
+                        continue
                     zf.write(Path(root) / filename, arcname=directory / filename)
         print(f"-> Successfully saved files into {zip_filename}.")
-- 
2.43.0

