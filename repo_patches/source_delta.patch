From 98a9b23f34a6b497b97796e358c3d397109db0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:08 +0000
Subject: [PATCH 01/24] fix: incoming and outgoing are the exact difference by
 element, Partial does not duplicate overlapping elements

---
 sawatabi/algorithm/abstract_algorithm.py | 34 ++++++++----------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 60b28ef..db5840f 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -112,34 +112,22 @@ class AbstractAlgorithm(BaseMixin):
             # Partial: Merge current window with the specified data.
             elif algorithm == sawatabi.constants.ALGORITHM_PARTIAL:
                 filter_fn = algorithm_options["filter_fn"]
-                filtered = filter(filter_fn, prev_elements)
-                sorted_elements = list(filtered) + sorted_elements
+                # Elements which are also in the current (overlapping) window must not be duplicated.
+                current_indices = {element[1][0] for element in sorted_elements}
+                filtered = [element for element in prev_elements if element[1][0] not in current_indices and filter_fn(element)]
+                sorted_elements = filtered + sorted_elements
                 sorted_elements = sorted(sorted_elements)
 
-            # Resolve outgoing elements in this iteration
-            def resolve_outgoing(prev_elements, sorted_elements):
-                outgoing = []
-                for p in prev_elements:
-                    if p[0] >= sorted_elements[0][0]:
-                        break
-                    outgoing.append(p)
-                return outgoing
+            # An element is identified by its index: event times are neither unique nor (with late or filtered data) monotonic.
+            def subtract(minuend, subtrahend):
+                indices = {element[1][0] for element in subtrahend}
+                return [element for element in minuend if element[1][0] not in indices]
 
-            outgoing = resolve_outgoing(prev_elements, sorted_elements)
+            # Resolve outgoing elements in this iteration
+            outgoing = subtract(prev_elements, sorted_elements)
 
             # Resolve incoming elements in this iteration
-            def resolve_incoming(prev_elements, sorted_elements):
-                incoming = []
-                if len(prev_elements) == 0:
-                    incoming = sorted_elements
-                else:
-                    for v in reversed(sorted_elements):
-                        if v[0] <= prev_elements[-1][0]:
-                            break
-                        incoming.insert(0, v)
-                return incoming
-
-            incoming = resolve_incoming(prev_elements, sorted_elements)
+            incoming = subtract(sorted_elements, prev_elements)
 
             # Clear the BagState so we can hold only the latest state, and
             # Register new timestamp and elements to the states
-- 
2.43.0


From b75c52e3a327cc1a51dcb1b7d0f20d3e9065aaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:08 +0000
Subject: [PATCH 02/24] fix: a failed map neither shifts the difference base
 nor leaks changes into the previous model

---
 sawatabi/algorithm/abstract_algorithm.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index db5840f..7647acc 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import copy
 import traceback
 
 import apache_beam as beam
@@ -45,6 +46,7 @@ class AbstractAlgorithm(BaseMixin):
     class SolveDoFn(beam.DoFn):
         PREV_TIMESTAMP = BagStateSpec(name="timestamp_state", coder=coders.PickleCoder())
         PREV_ELEMENTS = BagStateSpec(name="elements_state", coder=coders.PickleCoder())
+        MAPPED_ELEMENTS = BagStateSpec(name="mapped_elements_state", coder=coders.PickleCoder())
         PREV_MODEL = BagStateSpec(name="model_state", coder=coders.PickleCoder())
         PREV_SAMPLESET = BagStateSpec(name="sampleset_state", coder=coders.PickleCoder())
 
@@ -54,6 +56,7 @@ class AbstractAlgorithm(BaseMixin):
             timestamp=beam.DoFn.TimestampParam,
             timestamp_state=beam.DoFn.StateParam(PREV_TIMESTAMP),
             elements_state=beam.DoFn.StateParam(PREV_ELEMENTS),
+            mapped_elements_state=beam.DoFn.StateParam(MAPPED_ELEMENTS),
             model_state=beam.DoFn.StateParam(PREV_MODEL),
             sampleset_state=beam.DoFn.StateParam(PREV_SAMPLESET),
             algorithm=None,
@@ -74,6 +77,7 @@ class AbstractAlgorithm(BaseMixin):
             # generator into a list
             timestamp_state_as_list = list(timestamp_state.read())
             elements_state_as_list = list(elements_state.read())
+            mapped_elements_state_as_list = list(mapped_elements_state.read())
             model_state_as_list = list(model_state.read())
             sampleset_state_as_list = list(sampleset_state.read())
 
@@ -86,6 +90,10 @@ class AbstractAlgorithm(BaseMixin):
                 prev_elements = []
             else:
                 prev_elements = elements_state_as_list[-1]
+            if len(mapped_elements_state_as_list) == 0:
+                mapped_elements = []
+            else:
+                mapped_elements = mapped_elements_state_as_list[-1]
             if len(model_state_as_list) == 0:
                 prev_model = sawatabi.model.LogicalModel(mtype=initial_mtype)
             else:
@@ -123,11 +131,12 @@ class AbstractAlgorithm(BaseMixin):
                 indices = {element[1][0] for element in subtrahend}
                 return [element for element in minuend if element[1][0] not in indices]
 
+            # The difference is taken from the elements that the previous model stands for, i.e., those of the last successful map.
             # Resolve outgoing elements in this iteration
-            outgoing = subtract(prev_elements, sorted_elements)
+            outgoing = subtract(mapped_elements, sorted_elements)
 
             # Resolve incoming elements in this iteration
-            incoming = subtract(sorted_elements, prev_elements)
+            incoming = subtract(sorted_elements, mapped_elements)
 
             # Clear the BagState so we can hold only the latest state, and
             # Register new timestamp and elements to the states
@@ -137,14 +146,17 @@ class AbstractAlgorithm(BaseMixin):
             elements_state.add(sorted_elements)
 
             # Map problem input to the model
+            # (with a copy of the previous model, so that a failing map leaves no trace in the state)
             try:
-                model = map_fn(prev_model, prev_sampleset, sorted_elements, incoming, outgoing)
+                model = map_fn(copy.deepcopy(prev_model), prev_sampleset, sorted_elements, incoming, outgoing)
             except Exception as e:
                 yield f"Failed to map: {e}\n{traceback.format_exc()}"
                 return
 
             # Clear the BagState so we can hold only the latest state, and
-            # Register new model to the state
+            # Register new model and the elements it stands for to the states
+            mapped_elements_state.clear()
+            mapped_elements_state.add(sorted_elements)
             model_state.clear()
             model_state.add(model)
 
-- 
2.43.0


From 9a0c19c4b544d4444aee730fbdb6a9de03b382fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:08 +0000
Subject: [PATCH 03/24] fix: a failing attenuation rescaling is reported, and
 the rescaled model is the one kept in the state

---
 sawatabi/algorithm/abstract_algorithm.py | 34 +++++++++++++++---------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 7647acc..42926e6 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -153,25 +153,33 @@ class AbstractAlgorithm(BaseMixin):
                 yield f"Failed to map: {e}\n{traceback.format_exc()}"
                 return
 
+            # Algorithm specific operations
+            # Attenuation: Update scale based on data timestamp.
+            attenuation_failure = None
+            if algorithm == sawatabi.constants.ALGORITHM_ATTENUATION:
+                try:
+                    model.to_physical()  # Resolve removed interactions. TODO: Deal with placeholders.
+                    ref_timestamp = model._interactions_array[algorithm_options["attenuation.key"]]
+                    min_ts = min(ref_timestamp)
+                    max_ts = max(ref_timestamp)
+                    min_scale = algorithm_options["attenuation.min_scale"]
+                    if min_ts < max_ts:
+                        for i, t in enumerate(ref_timestamp):
+                            new_scale = (1.0 - min_scale) / (max_ts - min_ts) * (t - min_ts) + min_scale
+                            model._interactions_array["scale"][i] = new_scale
+                except Exception as e:
+                    attenuation_failure = f"Failed to solve: {e}\n{traceback.format_exc()}"
+
             # Clear the BagState so we can hold only the latest state, and
-            # Register new model and the elements it stands for to the states
+            # Register new model (after the rescaling, because a runner may serialize it here) and the elements it stands for to the states
             mapped_elements_state.clear()
             mapped_elements_state.add(sorted_elements)
             model_state.clear()
             model_state.add(model)
 
-            # Algorithm specific operations
-            # Attenuation: Update scale based on data timestamp.
-            if algorithm == sawatabi.constants.ALGORITHM_ATTENUATION:
-                model.to_physical()  # Resolve removed interactions. TODO: Deal with placeholders.
-                ref_timestamp = model._interactions_array[algorithm_options["attenuation.key"]]
-                min_ts = min(ref_timestamp)
-                max_ts = max(ref_timestamp)
-                min_scale = algorithm_options["attenuation.min_scale"]
-                if min_ts < max_ts:
-                    for i, t in enumerate(ref_timestamp):
-                        new_scale = (1.0 - min_scale) / (max_ts - min_ts) * (t - min_ts) + min_scale
-                        model._interactions_array["scale"][i] = new_scale
+            if attenuation_failure is not None:
+                yield attenuation_failure
+                return
 
             # Solve and unmap to the solution
             try:
-- 
2.43.0


From 51b12b3e9754d525fd1e4299cccfae7f1e424176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:08 +0000
Subject: [PATCH 04/24] fix: the first window is never outdated, and the
 outdated message names the processed time

---
 sawatabi/algorithm/abstract_algorithm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sawatabi/algorithm/abstract_algorithm.py b/sawatabi/algorithm/abstract_algorithm.py
index 42926e6..f008fb3 100644
--- a/sawatabi/algorithm/abstract_algorithm.py
+++ b/sawatabi/algorithm/abstract_algorithm.py
@@ -83,7 +83,7 @@ class AbstractAlgorithm(BaseMixin):
 
             # Extract the previous timestamp, elements, and model from state
             if len(timestamp_state_as_list) == 0:
-                prev_timestamp = -1.0
+                prev_timestamp = None
             else:
                 prev_timestamp = timestamp_state_as_list[-1]
             if len(elements_state_as_list) == 0:
@@ -105,10 +105,10 @@ class AbstractAlgorithm(BaseMixin):
 
             # Sometimes, when we use the sliding window algorithm for a bounded data (such as a local file),
             # we may receive an outdated event whose timestamp is older than timestamp of previously processed event.
-            if float(timestamp) < float(prev_timestamp):
+            if prev_timestamp is not None and float(timestamp) < float(prev_timestamp):
                 yield (
                     f"The received event is outdated: Timestamp is {timestamp.to_utc_datetime()}, "
-                    + f"while an event with timestamp of {timestamp.to_utc_datetime()} has been already processed."
+                    + f"while an event with timestamp of {prev_timestamp.to_utc_datetime()} has been already processed."
                 )
                 return
 
-- 
2.43.0


From 105aa69176273de3a022f38e1b9a1582e27a2a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:18 +0000
Subject: [PATCH 05/24] fix: update_interaction stamps with the time of the
 call, not of the import

---
 sawatabi/model/logical_model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index f528bda..b3640fe 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -206,21 +206,23 @@ class LogicalModel(AbstractModel):
         coefficient=None,
         scale=None,
         attributes=None,
-        timestamp=current_time(),
+        timestamp=None,
     ):
         if (not target) and (not name):
             raise ValueError("Either 'target' or 'name' must be specified.")
         if target and name:
             raise ValueError("Both 'target' and 'name' cannot be specified simultaneously.")
 
+        if timestamp is None:
+            timestamp = current_time()
+
         if coefficient is not None:
             self._check_argument_type("coefficient", coefficient, numbers.Number)
         if scale is not None:
             self._check_argument_type("scale", scale, numbers.Number)
         if attributes is not None:
             self._check_argument_type("attributes", attributes, dict)
-        if timestamp is not None:
-            self._check_argument_type("timestamp", timestamp, (int, float))
+        self._check_argument_type("timestamp", timestamp, (int, float))
 
         if target is not None:
             interaction_info = self._get_interaction_info_from_target(target)
-- 
2.43.0


From 2ef0aeb4314cb69f072004c29405f5c5c6af17d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:18 +0000
Subject: [PATCH 06/24] fix: attributes given to update_interaction are kept

---
 sawatabi/model/logical_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index b3640fe..e1624ac 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -240,7 +240,7 @@ class LogicalModel(AbstractModel):
                 warnings.warn(f"An interaction named '{internal_name}' does not exist yet in the model, but will be added instead of updating it.")
                 _coefficient = 0.0 if coefficient is None else coefficient
                 _scale = 1.0 if scale is None else scale
-                return self.add_interaction(target=target, coefficient=_coefficient, scale=_scale, timestamp=timestamp)
+                return self.add_interaction(target=target, coefficient=_coefficient, scale=_scale, attributes=attributes, timestamp=timestamp)
 
         if self._is_removed(internal_name):
             raise ValueError(f"An interaction named '{internal_name}' is already removed.")
@@ -257,6 +257,7 @@ class LogicalModel(AbstractModel):
                 attrs_key = f"attributes.{k}"
                 if attrs_key not in self._interactions_array:
                     self._interactions_array[attrs_key] = [np.nan] * self._interactions_length
+                    self._interactions_attrs.append(attrs_key)
                 self._interactions_array[attrs_key][update_idx] = v
         self._interactions_array["timestamp"][update_idx] = timestamp
         self._interactions_array["dirty"][update_idx] = True
-- 
2.43.0


From f45d9c63d3b67402a3c07c9af97e025a168d02dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:31 +0000
Subject: [PATCH 07/24] fix: delete_variable works with constraints that do not
 hold the variable and with equality constraints

---
 sawatabi/model/constraint/abstract_constraint.py | 7 +++++++
 sawatabi/model/logical_model.py                  | 4 ++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/constraint/abstract_constraint.py b/sawatabi/model/constraint/abstract_constraint.py
index 7197ea2..179442d 100644
--- a/sawatabi/model/constraint/abstract_constraint.py
+++ b/sawatabi/model/constraint/abstract_constraint.py
@@ -44,6 +44,13 @@ class AbstractConstraint(BaseMixin):
             variables = [variables]
         return set(variables)
 
+    def _discard_variable(self, target):
+        # Remove the variable if it exists in the constraint variables.
+        # Compare labels because the model, but not the constraint, may have been converted between Ising and QUBO.
+        for name in ("_variables", "_variables_1", "_variables_2"):
+            if hasattr(self, name):
+                setattr(self, name, {v for v in getattr(self, name) if v.label != target.label})
+
     def get_constraint_class(self):
         return self._constraint_class
 
diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index e1624ac..b382f3f 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -363,8 +363,8 @@ class LogicalModel(AbstractModel):
         self._deleted[target.label] = True
 
         # Deal with constraints
-        for k, v in self.get_constraints().items():
-            v.remove_variable(variables=target)
+        for constraint in self.get_constraints().values():
+            constraint._discard_variable(target)
 
         # Remove related interations
         removed = self.select_interactions_by_variable(target)
-- 
2.43.0


From 733247df4bc628bf561d4a207255d84a8fb533f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:39 +0000
Subject: [PATCH 08/24] fix: fix_variable ignores removed interactions and
 never fails on a name

---
 sawatabi/model/logical_model.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index b382f3f..93f332d 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -340,6 +340,15 @@ class LogicalModel(AbstractModel):
     def _has_name(self, internal_name):
         return internal_name in self._interactions_array["name"]
 
+    def _get_unique_name(self, internal_name):
+        # Returns the given name itself, or the name with the first suffix which makes it unique.
+        unique_name = internal_name
+        suffix = 1
+        while self._has_name(unique_name):
+            suffix += 1
+            unique_name = f"{internal_name} ({suffix})"
+        return unique_name
+
     def _is_removed(self, internal_name):
         idx = self._interactions_array["name"].index(internal_name)
         return self._interactions_array["removed"][idx]
@@ -391,8 +400,8 @@ class LogicalModel(AbstractModel):
         # TODO: Delete variable physically
         self._fixed[target.label] = True
 
-        # Update related interations
-        selected = self.select_interactions_by_variable(target)
+        # Update related interations (which are not removed yet)
+        selected = [s for s in self.select_interactions_by_variable(target) if not self._is_removed(s)]
 
         if len(selected) <= 0:
             warnings.warn("No interactions updated.")
@@ -417,7 +426,7 @@ class LogicalModel(AbstractModel):
                         interacts_to = interacts[1]
                     elif interacts[1].label == target.label:
                         interacts_to = interacts[0]
-                    new_name = f"{interacts_to.label} (before fixed: {s})"
+                    new_name = self._get_unique_name(f"{interacts_to.label} (before fixed: {s})")
                     new_coefficient = value * self._interactions_array["coefficient"][idx] * self._interactions_array["scale"][idx]
                     self.add_interaction(target=interacts_to, name=new_name, coefficient=new_coefficient)
                     self.remove_interaction(name=s)
-- 
2.43.0


From 544e4899eba7b2b5a6c208878392b95032fe7e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:48 +0000
Subject: [PATCH 09/24] fix: merge gives unique names, checks before changing
 and leaves the other model alone

---
 sawatabi/model/logical_model.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 93f332d..7655f60 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -624,9 +624,10 @@ class LogicalModel(AbstractModel):
     def merge(self, other):
         self._check_argument_type("other", other, LogicalModel)
 
-        # Check type
-        if self._mtype != other._mtype:
-            other._convert_mtype()
+        # Check constraints
+        # If both models have a constraint with the same label, cannnot merge currently
+        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
+            raise ValueError("Cannot merge model since both model have a constraint with the same label.")
 
         # Check variables
         for key, value in self._variables.items():
@@ -634,6 +635,12 @@ class LogicalModel(AbstractModel):
                 if len(value.shape) != len(other._variables[key].shape):
                     raise ValueError(f"Cannot merge model since the dimension of '{key}' is different.")
 
+        # Check type
+        # (Do not touch the other model, neither now nor by later operations on the merged model)
+        other = copy.deepcopy(other)
+        if self._mtype != other._mtype:
+            other._convert_mtype()
+
         # Merge variables
         for key, value in other._variables.items():
             if key not in self._variables:
@@ -656,25 +663,23 @@ class LogicalModel(AbstractModel):
                 merged_interactions_with_duplication[attr] = self._interactions_array[attr] + ([np.nan] * other._interactions_length)
             elif attr in other._interactions_attrs:
                 merged_interactions_with_duplication[attr] = ([np.nan] * self._interactions_length) + other._interactions_array[attr]
-        duplicate_names = list(set(self._interactions_array["name"]) & set(other._interactions_array["name"]))
+        duplicate_names = set(self._interactions_array["name"]) & set(other._interactions_array["name"])
 
-        # Rename duplicate interaction names by adding suffix of model id
+        # Rename duplicate interaction names by adding suffix which makes them unique
+        merged_names = set(merged_interactions_with_duplication["name"])
         for idx, name in enumerate(merged_interactions_with_duplication["name"]):
             if name in duplicate_names:
-                if idx < self._interactions_length:
-                    model_id = id(self)
-                else:
-                    model_id = id(other)
-                merged_interactions_with_duplication["name"][idx] = f"{name} ({model_id})"
+                suffix = 1
+                while f"{name} ({suffix})" in merged_names:
+                    suffix += 1
+                merged_names.add(f"{name} ({suffix})")
+                merged_interactions_with_duplication["name"][idx] = f"{name} ({suffix})"
 
         self._interactions_array = merged_interactions_with_duplication
         self._interactions_attrs = merged_attrs
         self._interactions_length = self._interactions_length + other._interactions_length
 
         # Merge constraints
-        # If both models have a constraint with the same label, cannnot merge currently
-        if len(set(self._constraints.keys()) & set(other._constraints.keys())) > 0:
-            raise ValueError("Cannot merge model since both model have a constraint with the same label.")
         self._constraints.update(other._constraints)
 
         # Merge other fields
-- 
2.43.0


From 8901d297ced9a87b603cf3f7425e2e876526b33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:09 +0000
Subject: [PATCH 10/24] fix: Ising/QUBO conversion respects scales and does not
 depend on the clock

---
 sawatabi/model/logical_model.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 7655f60..ecab321 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -738,20 +738,18 @@ class LogicalModel(AbstractModel):
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
                 self.update_interaction(name=h["name"], coefficient=coeff * 0.5)
-                self._offset += coeff * 0.5
+                self._offset += coeff * h["scale"] * 0.5
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
             for _, J in J_df.iterrows():
                 coeff = J["coefficient"]
                 self.update_interaction(name=J["name"], coefficient=coeff * 0.25)
-                self.add_interaction(
-                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * 0.25
-                )
-                self.add_interaction(
-                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=coeff * 0.25
-                )
-                self._offset += coeff * 0.25
+                for k in (0, 1):
+                    # The clock may not have advanced, so the name needs to be checked
+                    name = self._get_unique_name(f"{J[f'key_{k}']} from {J['name']} (mtype additional {current_time()})")
+                    self.add_interaction(target=J["interacts"][k], name=name, coefficient=coeff * 0.25, scale=J["scale"])
+                self._offset += coeff * J["scale"] * 0.25
         else:
             warnings.warn("The model is already an Ising model.")
 
@@ -773,20 +771,18 @@ class LogicalModel(AbstractModel):
             for index, h in h_df.iterrows():
                 coeff = h["coefficient"]
                 self.update_interaction(name=h["name"], coefficient=coeff * 2.0)
-                self._offset -= coeff
+                self._offset -= coeff * h["scale"]
 
             # Update J_{ij}
             J_df = self.select_interaction(query="(body == 2) and (removed == False)")
             for _, J in J_df.iterrows():
                 coeff = J["coefficient"]
                 self.update_interaction(name=J["name"], coefficient=J["coefficient"] * 4.0)
-                self.add_interaction(
-                    target=J["interacts"][0], name=f"{J['key_0']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * 2.0
-                )
-                self.add_interaction(
-                    target=J["interacts"][1], name=f"{J['key_1']} from {J['name']} (mtype additional {current_time()})", coefficient=-coeff * 2.0
-                )
-                self._offset += coeff
+                for k in (0, 1):
+                    # The clock may not have advanced, so the name needs to be checked
+                    name = self._get_unique_name(f"{J[f'key_{k}']} from {J['name']} (mtype additional {current_time()})")
+                    self.add_interaction(target=J["interacts"][k], name=name, coefficient=coeff * -2.0, scale=J["scale"])
+                self._offset += coeff * J["scale"]
         else:
             warnings.warn("The model is already a QUBO model.")
 
-- 
2.43.0


From 02dd0644540fd2ffa251f9263467419694a30413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:20 +0000
Subject: [PATCH 11/24] fix: update_interaction, and so the Ising/QUBO
 conversion, accepts placeholders as add_interaction does

---
 sawatabi/model/logical_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index ecab321..e775532 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -217,9 +217,9 @@ class LogicalModel(AbstractModel):
             timestamp = current_time()
 
         if coefficient is not None:
-            self._check_argument_type("coefficient", coefficient, numbers.Number)
+            self._check_argument_type("coefficient", coefficient, (numbers.Number, pyqubo.core.Express, pyqubo.core.Coefficient))
         if scale is not None:
-            self._check_argument_type("scale", scale, numbers.Number)
+            self._check_argument_type("scale", scale, (numbers.Number, pyqubo.core.Express))
         if attributes is not None:
             self._check_argument_type("attributes", attributes, dict)
         self._check_argument_type("timestamp", timestamp, (int, float))
-- 
2.43.0


From 306e85bc9d00bee8638ee07fc1184f0d6818cf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:31 +0000
Subject: [PATCH 12/24] fix: a failing to_physical leaves the logical model as
 it was

---
 sawatabi/model/logical_model.py | 68 +++++++++++++++++----------------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index e775532..0d37801 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -510,10 +510,6 @@ class LogicalModel(AbstractModel):
     def to_physical(self, placeholder=None):
         if placeholder is None:
             placeholder = {}
-        physical = PhysicalModel(mtype=self._mtype)
-
-        linear, quadratic = {}, {}
-        will_remove = []
 
         # Save the model before merging constraints to restore it later
         # original_variables = copy.deepcopy(self._variables)  # Variables will not be changed
@@ -525,6 +521,42 @@ class LogicalModel(AbstractModel):
         original_interactions_attrs = copy.deepcopy(self._interactions_attrs)
         original_interactions_length = self._interactions_length
 
+        try:
+            physical = self._resolve_physical(placeholder)
+        finally:
+            # Restore the model before adding constraints (even if it cannot be resolved)
+            # self._variables = original_variables  # Variables were not changed
+            self._offset = original_offset
+            self._deleted = original_deleted
+            self._fixed = original_fixed
+            # self._constraints = original_constraints  # Constraints were not changed
+            self._interactions_array = original_interactions_array
+            self._interactions_attrs = original_interactions_attrs
+            self._interactions_length = original_interactions_length
+
+        # save the last physical model
+        self._previous_physical_model = physical
+
+        # Remove interactions
+        # TODO: Physically remove the logically removed interactions
+        alive = [i for i in range(self._interactions_length) if not self._interactions_array["removed"][i]]
+        for k in self._interactions_array.keys():
+            self._interactions_array[k] = [self._interactions_array[k][i] for i in alive]
+        self._interactions_length = len(alive)
+
+        # Set dirty flag
+        for i in range(self._interactions_length):
+            # TODO: Calc difference from previous physical model by referencing dirty flags.
+            if self._interactions_array["dirty"][i]:
+                self._interactions_array["dirty"][i] = False
+
+        return physical
+
+    def _resolve_physical(self, placeholder):
+        physical = PhysicalModel(mtype=self._mtype)
+
+        linear, quadratic = {}, {}
+
         # Resolve constraints, and convert them to the interactions
         for label, constraint in self._constraints.items():
             constraint_model = constraint.to_model()
@@ -533,7 +565,6 @@ class LogicalModel(AbstractModel):
         # group by key
         for i in range(self._interactions_length):
             if self._interactions_array["removed"][i]:
-                will_remove.append(self._interactions_array["name"][i])
                 continue
 
             # Resolve placeholders for coefficients and scales, using PyQUBO.
@@ -592,33 +623,6 @@ class LogicalModel(AbstractModel):
                     physical._index_to_label[current_index] = v.label
                     current_index += 1
 
-        # save the last physical model
-        self._previous_physical_model = physical
-
-        # Restore the model before adding constraints
-        # self._variables = original_variables  # Variables were not changed
-        self._offset = original_offset
-        self._deleted = original_deleted
-        self._fixed = original_fixed
-        # self._constraints = original_constraints  # Constraints were not changed
-        self._interactions_array = original_interactions_array
-        self._interactions_attrs = original_interactions_attrs
-        self._interactions_length = original_interactions_length
-
-        # Remove interactions
-        # TODO: Physically remove the logically removed interactions
-        for rm in will_remove:
-            idx = self._interactions_array["name"].index(rm)
-            for k in self._interactions_array.keys():
-                self._interactions_array[k].pop(idx)
-            self._interactions_length -= 1
-
-        # Set dirty flag
-        for i in range(self._interactions_length):
-            # TODO: Calc difference from previous physical model by referencing dirty flags.
-            if self._interactions_array["dirty"][i]:
-                self._interactions_array["dirty"][i] = False
-
         return physical
 
     def merge(self, other):
-- 
2.43.0


From 723730da308ce82558b67044325fc16af306444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:41 +0000
Subject: [PATCH 13/24] fix: from_pyqubo imports all or nothing and does not
 modify the compiled model

---
 sawatabi/model/logical_model.py | 39 +++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 0d37801..c922a73 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -12,7 +12,6 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-import collections
 import copy
 import numbers
 import pprint
@@ -475,6 +474,7 @@ class LogicalModel(AbstractModel):
         compiled_qubo = pyqubo_model.compiled_qubo
         structure = pyqubo_model.structure
 
+        imported = []
         for k, v in compiled_qubo.qubo.items():
             # For the first variable.
             # - structure[k[0]][0] holds the variable name,
@@ -486,22 +486,39 @@ class LogicalModel(AbstractModel):
             variable_1 = self.get_variables_by_name(structure[k[1]][0])
             target_1 = variable_1[structure[k[1]][1:]]
 
-            coeff = v
-            if isinstance(coeff, pyqubo.Coefficient):
-                assert isinstance(coeff.terms, collections.defaultdict)
-                for placeholder_k, _ in coeff.terms.items():
-                    coeff.terms[placeholder_k] *= -1
-            else:
-                coeff *= -1
+            # Do not modify the compiled model: coefficients with placeholders are converted into (signed) expressions
+            coeff = -1 * self._coefficient_to_expression(v)
 
             if k[0] == k[1]:
                 # 1-body
-                self.add_interaction(target=target_0, coefficient=coeff)
+                imported.append((target_0, coeff))
             else:
                 # 2-body
-                self.add_interaction(target=(target_0, target_1), coefficient=coeff)
+                imported.append(((target_0, target_1), coeff))
+
+        # Check everything before adding anything
+        for target, _ in imported:
+            name = self._get_interaction_info_from_target(target)["name"]
+            if self._has_name(name):
+                raise ValueError(f"An interaction named '{name}' already exists. Cannot import the expression.")
+        offset = self._coefficient_to_expression(compiled_qubo.offset)
 
-        self._offset = compiled_qubo.offset
+        for target, coeff in imported:
+            self.add_interaction(target=target, coefficient=coeff)
+        self._offset = offset
+
+    @staticmethod
+    def _coefficient_to_expression(coeff):
+        if not isinstance(coeff, pyqubo.Coefficient):
+            return coeff
+        expression = 0.0
+        for prod, value in coeff.terms.items():
+            term = value
+            for placeholder, power in prod.keys.items():
+                for _ in range(power):
+                    term = term * pyqubo.Placeholder(placeholder)
+            expression = expression + term
+        return expression
 
     ################################
     # Converts
-- 
2.43.0


From 28ce6fb6034a8ffeab518fd319ac387ca0515112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:13 +0000
Subject: [PATCH 14/24] fix: fixed variables are substituted in constraints and
 in interactions added later

---
 sawatabi/model/logical_model.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index c922a73..9e419ab 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -397,7 +397,7 @@ class LogicalModel(AbstractModel):
                 raise ValueError("'value' must be one of [1, 0] because the model is a QUBO model.")
 
         # TODO: Delete variable physically
-        self._fixed[target.label] = True
+        self._fixed[target.label] = value
 
         # Update related interations (which are not removed yet)
         selected = [s for s in self.select_interactions_by_variable(target) if not self._is_removed(s)]
@@ -573,6 +573,7 @@ class LogicalModel(AbstractModel):
         physical = PhysicalModel(mtype=self._mtype)
 
         linear, quadratic = {}, {}
+        fixed_offset = 0.0
 
         # Resolve constraints, and convert them to the interactions
         for label, constraint in self._constraints.items():
@@ -597,6 +598,19 @@ class LogicalModel(AbstractModel):
             coeff_ph_resolved = coeff_model.to_qubo(feed_dict=placeholder)
             coeff = coeff_ph_resolved[1]  # We don't need the variable just prepared, extracting only offset
 
+            # Substitute variables already fixed (constraints still hold them)
+            key = self._interactions_array["key"][i]
+            labels = (key,) if self._interactions_array["body"][i] == constants.INTERACTION_LINEAR else key
+            if any(label in self._fixed for label in labels):
+                remaining = [label for label in labels if label not in self._fixed]
+                for label in labels:
+                    coeff *= self._fixed.get(label, 1)
+                if len(remaining) == 0:
+                    fixed_offset -= coeff
+                else:
+                    linear[remaining[0]] = linear.get(remaining[0], 0.0) + coeff
+                continue
+
             if self._interactions_array["body"][i] == constants.INTERACTION_LINEAR:
                 if self._interactions_array["key"][i] in linear:
                     linear[self._interactions_array["key"][i]] += coeff
@@ -628,7 +642,7 @@ class LogicalModel(AbstractModel):
                 physical.add_interaction(k, body=constants.INTERACTION_QUADRATIC, coefficient=v)
                 physical._variables_set.add(k[0])
                 physical._variables_set.add(k[1])
-        physical._offset = offset
+        physical._offset = offset + fixed_offset
 
         # label_to_index / index_to_label
         current_index = 0
@@ -750,6 +764,7 @@ class LogicalModel(AbstractModel):
         """
         if self._mtype != constants.MODEL_ISING:
             self._mtype = constants.MODEL_ISING
+            self._fixed = {k: 2 * v - 1 for k, v in self._fixed.items()}
 
             # Update variables from Spin to Binary
             self._update_variables_type()
@@ -783,6 +798,7 @@ class LogicalModel(AbstractModel):
         """
         if self._mtype != constants.MODEL_QUBO:
             self._mtype = constants.MODEL_QUBO
+            self._fixed = {k: (v + 1) // 2 for k, v in self._fixed.items()}
 
             # Update variables from Spin to Binary
             self._update_variables_type()
-- 
2.43.0


From 06c152740a794f040934883d304b1010f7119a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:13 +0000
Subject: [PATCH 15/24] fix: get_size counts a variable both fixed and deleted
 once

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 9e419ab..8c03d79 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -855,7 +855,7 @@ class LogicalModel(AbstractModel):
         """
         Returns the number of all alive variables (i.e., variables which are not removed or fixed).
         """
-        return self.get_all_size() - self.get_deleted_size() - self.get_fixed_size()
+        return self.get_all_size() - len(self._deleted.keys() | self._fixed.keys())
 
     def get_deleted_size(self):
         """
-- 
2.43.0


From 4429a03e9871de2178a55c4183c0139da84e44bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:29 +0000
Subject: [PATCH 16/24] fix: seed 0 of the annealing solver is a seed

---
 sawatabi/solver/sawatabi_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 39437be..8cdbd47 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -67,7 +67,7 @@ class SawatabiSolver(AbstractSolver):
                 raise ValueError("reverse_options must contain 'reverse_temperature'")
 
         # Use a rangom generator so that this random sequence is isolated
-        if seed:
+        if seed is not None:
             self._rng = np.random.default_rng(seed)
         else:
             self._rng = np.random.default_rng()
-- 
2.43.0


From de2fa055985e8931362146457fcd6c2e222a370a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:29 +0000
Subject: [PATCH 17/24] fix: the annealing solver does not modify the given
 initial states

---
 sawatabi/solver/sawatabi_solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 8cdbd47..f290758 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -81,10 +81,8 @@ class SawatabiSolver(AbstractSolver):
 
             # Convert initial states as well
             if initial_states:
-                for i, initial_state in enumerate(initial_states):
-                    for k, v in initial_state.items():
-                        if v == 0:
-                            initial_states[i][k] = -1
+                # (without modifying the given ones)
+                initial_states = [{k: (-1 if v == 0 else v) for k, v in initial_state.items()} for initial_state in initial_states]
 
         self._model = model
         self._bqm = bqm
-- 
2.43.0


From aa3bab76e5e62ae47dabd9d12cc272567386ec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:29 +0000
Subject: [PATCH 18/24] fix: the energy history of the annealing solver
 includes the offset

---
 sawatabi/solver/sawatabi_solver.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index f290758..8308e11 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -158,6 +158,7 @@ class SawatabiSolver(AbstractSolver):
         initial_sample = dict(zip(list(self._model._index_to_label.values()), x))
         # logger.info(f"initial_spins: {initial_sample}")
         initial_energy = self._bqm.energy(initial_sample) * -1.0  # Note that the signs of original bqm is opposite from ours
+        initial_energy += self._original_bqm.offset * 2  # ... except the offset
         # logger.info(f"initial_energy: {initial_energy}")
 
         if not reverse_options:
@@ -225,9 +226,6 @@ class SawatabiSolver(AbstractSolver):
         # recalc_energy = self._bqm.energy(sample) * -1.0
         # assert math.isclose(energy, recalc_energy, rel_tol=1e-9, abs_tol=1e-9)
 
-        # Deal with offset
-        energy += self._original_bqm.offset * 2
-
         return sample, energy, energy_hist, temperature_hist, acceptance_hist
 
     def calc_energy_diff(self, idx, x):
-- 
2.43.0


From f52068b06411b5d9c0abc60411af5529e9d8c7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:29 +0000
Subject: [PATCH 19/24] fix: the annealing solver works when the temperature
 reaches zero

---
 sawatabi/solver/sawatabi_solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sawatabi/solver/sawatabi_solver.py b/sawatabi/solver/sawatabi_solver.py
index 8308e11..8d4f657 100644
--- a/sawatabi/solver/sawatabi_solver.py
+++ b/sawatabi/solver/sawatabi_solver.py
@@ -246,6 +246,8 @@ class SawatabiSolver(AbstractSolver):
         """
         if diff <= 0.0:
             return True
+        if temperature <= 0.0:
+            return False
         p = math.exp(-diff / temperature)  # Note: np.exp is slow here
         self._accept_randoms_idx += 1
         if self._accept_randoms[self._accept_randoms_idx] < p:
-- 
2.43.0


From afe22c1af1b90676607db5c5b706c691cc51e584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:29 +0000
Subject: [PATCH 20/24] fix: an Optigan response with missing or invalid spins
 is an error

---
 sawatabi/solver/optigan_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sawatabi/solver/optigan_solver.py b/sawatabi/solver/optigan_solver.py
index 6bd0ea2..1b59467 100644
--- a/sawatabi/solver/optigan_solver.py
+++ b/sawatabi/solver/optigan_solver.py
@@ -104,6 +104,10 @@ class OptiganSolver(AbstractSolver):
         # Create a sampleset object for return
         samples = []
         for spins in result["spins"]:
+            if len(spins) != len(model._index_to_label):
+                raise ValueError("Invalid response: the number of spins does not match the number of variables.")
+            if any(spin not in (0, 1) for spin in spins):
+                raise ValueError("Invalid response: a spin must be either 0 or 1.")
             sample = dict(zip(list(model._index_to_label.values()), spins))
             samples.append(sample)
         sampleset = dimod.SampleSet.from_samples(samples, vartype=dimod.BINARY, energy=result["energies"], aggregate_samples=True, sort_labels=True)
-- 
2.43.0


From 50eb99d80268b569f92d1b261edb81b2b89a1275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:59 +0000
Subject: [PATCH 21/24] fix: from_pyqubo into an Ising model keeps the energies
 of the expression

---
 sawatabi/model/logical_model.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 8c03d79..541c70e 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -474,8 +474,14 @@ class LogicalModel(AbstractModel):
         compiled_qubo = pyqubo_model.compiled_qubo
         structure = pyqubo_model.structure
 
+        # Coefficients with placeholders are converted into expressions, so that the compiled model is not modified
+        qubo = {k: self._coefficient_to_expression(v) for k, v in compiled_qubo.qubo.items()}
+        offset = self._coefficient_to_expression(compiled_qubo.offset)
+        if self._mtype == constants.MODEL_ISING:
+            qubo, offset = self._qubo_to_ising(qubo, offset)
+
         imported = []
-        for k, v in compiled_qubo.qubo.items():
+        for k, v in qubo.items():
             # For the first variable.
             # - structure[k[0]][0] holds the variable name,
             # - structure[k[0]][1:] holds the variable index as tuple.
@@ -486,8 +492,7 @@ class LogicalModel(AbstractModel):
             variable_1 = self.get_variables_by_name(structure[k[1]][0])
             target_1 = variable_1[structure[k[1]][1:]]
 
-            # Do not modify the compiled model: coefficients with placeholders are converted into (signed) expressions
-            coeff = -1 * self._coefficient_to_expression(v)
+            coeff = -1 * v
 
             if k[0] == k[1]:
                 # 1-body
@@ -501,12 +506,26 @@ class LogicalModel(AbstractModel):
             name = self._get_interaction_info_from_target(target)["name"]
             if self._has_name(name):
                 raise ValueError(f"An interaction named '{name}' already exists. Cannot import the expression.")
-        offset = self._coefficient_to_expression(compiled_qubo.offset)
 
         for target, coeff in imported:
             self.add_interaction(target=target, coefficient=coeff)
         self._offset = offset
 
+    @staticmethod
+    def _qubo_to_ising(qubo, offset):
+        # x = (s+1)/2 for all variables
+        ising = {}
+        for k, v in qubo.items():
+            if k[0] == k[1]:
+                terms, rate = [k], 0.5
+            else:
+                terms, rate = [k, (k[0], k[0]), (k[1], k[1])], 0.25
+            for t in terms:
+                ising[t] = ising.get(t, 0.0) + v * rate
+            offset = offset + v * rate
+        # A linear term often vanishes
+        return {k: v for k, v in ising.items() if not (isinstance(v, numbers.Number) and v == 0.0)}, offset
+
     @staticmethod
     def _coefficient_to_expression(coeff):
         if not isinstance(coeff, pyqubo.Coefficient):
-- 
2.43.0


From 254d2ec438c3912ef2800322fefb08802e13bc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:41 +0000
Subject: [PATCH 22/24] fix: an Optigan response with missing or invalid
 energies is an error

---
 sawatabi/solver/optigan_solver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sawatabi/solver/optigan_solver.py b/sawatabi/solver/optigan_solver.py
index 1b59467..a121537 100644
--- a/sawatabi/solver/optigan_solver.py
+++ b/sawatabi/solver/optigan_solver.py
@@ -15,6 +15,7 @@
 import gzip
 import io
 import json
+import numbers
 import os.path
 
 import dimod
@@ -101,6 +102,9 @@ class OptiganSolver(AbstractSolver):
         # Interpret the response as JSON
         result = response.json()
 
+        if len(result["energies"]) != len(result["spins"]) or not all(isinstance(energy, numbers.Number) for energy in result["energies"]):
+            raise ValueError("Invalid response: there must be an energy for each spins.")
+
         # Create a sampleset object for return
         samples = []
         for spins in result["spins"]:
-- 
2.43.0


From 7adbaf565e71100a2c908e5d37a33647b4fb2f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:12 +0000
Subject: [PATCH 23/24] fix: the sample number partitioning couples every pair
 of the window and never shrinks its variables

---
 sample/algorithm/npp_window.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sample/algorithm/npp_window.py b/sample/algorithm/npp_window.py
index 003da6d..3f8b222 100644
--- a/sample/algorithm/npp_window.py
+++ b/sample/algorithm/npp_window.py
@@ -38,8 +38,8 @@ def npp_mapping(
         max_index = max([i[1][0] for i in incoming])
         # Get current array size
         x_size = model.get_all_size()
-        # Update variables
-        x = model.append(name="x", shape=(max_index - x_size + 1,))
+        # Update variables (indices do not always arrive in order of event time, so the array must not shrink)
+        x = model.append(name="x", shape=(max(max_index - x_size + 1, 0),))
     else:
         x = model.get_variables_by_name(name="x")
 
@@ -47,16 +47,19 @@ def npp_mapping(
     # print("elements:", elements)
     # print("incoming:", incoming)
     # print("outgoing:", outgoing)
+    incoming_indices = {i[1][0] for i in incoming}
     for i in incoming:
         for j in elements:
-            if i[0] > j[0]:
-                idx_i = i[1][0]
-                idx_j = j[1][0]
+            idx_i = i[1][0]
+            idx_j = j[1][0]
+            # Every pair once: with all the existing elements (whatever their event times are), and with each of the other incoming elements
+            if (idx_j not in incoming_indices) or ((i[0], idx_i) > (j[0], idx_j)):
+                older = min(i, j, key=lambda e: e[0])
                 coeff = -1.0 * i[1][1] * j[1][1]
                 model.add_interaction(
                     target=(x[idx_i], x[idx_j]),
                     coefficient=coeff,
-                    attributes={"n": str(j), "attn_ts": j[0]},  # metadata for affected number and timestamp for attenuation
+                    attributes={"n": str(older), "attn_ts": older[0]},  # metadata for affected number and timestamp for attenuation
                 )
 
     for o in outgoing:
-- 
2.43.0


From b9b6d657b628fcb95cd413b613db770dfc1e90ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:28 +0000
Subject: [PATCH 24/24] fix: from_pyqubo accepts constants with placeholders
 again

---
 sawatabi/model/logical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sawatabi/model/logical_model.py b/sawatabi/model/logical_model.py
index 541c70e..f0a7ed9 100644
--- a/sawatabi/model/logical_model.py
+++ b/sawatabi/model/logical_model.py
@@ -534,7 +534,7 @@ class LogicalModel(AbstractModel):
         for prod, value in coeff.terms.items():
             term = value
             for placeholder, power in prod.keys.items():
-                for _ in range(power):
+                for _ in range(int(power)):
                     term = term * pyqubo.Placeholder(placeholder)
             expression = expression + term
         return expression
-- 
2.43.0

