From e0a5f5d3ca6c8e1660e05acbdfdd6f8421607af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 01/97] fix: raise KeyError for a missing short name in a
 single node GraphState

---
 src/lightcurvelynx/graph_state.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 08e3610..7ed4a36 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -170,8 +170,7 @@ class GraphState:
             node_state = list(self.states.values())[0]
             if key in node_state:
                 return node_state[key]
-        else:
-            raise KeyError(f"Unknown GraphState key: {key}")
+        raise KeyError(f"Unknown GraphState key: {key}")
 
     def copy(self):
         """Create a deep copy of the GraphState.
-- 
2.43.0


From 95ec708648a831d0d6ec4e8c0381842538ce336a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 02/97] fix: leave a GraphState unchanged when set() rejects a
 value of the wrong length

---
 src/lightcurvelynx/graph_state.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 7ed4a36..cdb2eea 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -406,6 +406,15 @@ class GraphState:
         if "." in node_name or "." in var_name:
             raise ValueError("GraphState names (node or variable) cannot contain the character '.'")
 
+        # Check the length of array inputs before changing anything, so that a rejected
+        # value leaves no trace (such as a parameter that is counted, but not stored).
+        is_fixed = var_name in self.fixed_vars.get(node_name, ())
+        if self.num_samples > 1 and not np.isscalar(value) and not is_fixed and len(value) != self.num_samples:
+            raise ValueError(
+                f"Incompatible number of samples when setting GraphState for node={node_name}, "
+                f"variable={var_name}: {self.num_samples} vs {len(value)}."
+            )
+
         # Update the meta data.
         if node_name not in self.states:
             self.states[node_name] = {}
@@ -424,11 +433,6 @@ class GraphState:
         elif np.isscalar(value):
             # If the value is a scalar, expand it to the correct number of samples.
             self.states[node_name][var_name] = np.full(self.num_samples, value)
-        elif len(value) != self.num_samples:
-            raise ValueError(
-                f"Incompatible number of samples when setting GraphState for node={node_name}, "
-                f"variable={var_name}: {self.num_samples} vs {len(value)}."
-            )
         elif force_copy:
             self.states[node_name][var_name] = np.array(value.copy())
         else:
-- 
2.43.0


From ec998c44d5c755c38fbd5bb19eafb53a5089ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 03/97] fix: copy array values of single sample GraphStates in
 copy() and set(force_copy=True)

---
 src/lightcurvelynx/graph_state.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index cdb2eea..1bce164 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -185,10 +185,10 @@ class GraphState:
         for node_name, node_vars in self.states.items():
             new_state.states[node_name] = {}
             for var_name, var_value in node_vars.items():
-                if self.num_samples == 1:
-                    new_state.states[node_name][var_name] = var_value
-                else:
+                if isinstance(var_value, np.ndarray):
                     new_state.states[node_name][var_name] = var_value.copy()
+                else:
+                    new_state.states[node_name][var_name] = var_value
         for node_name, fixed_vars in self.fixed_vars.items():
             new_state.fixed_vars[node_name] = fixed_vars.copy()
         return new_state
@@ -429,6 +429,8 @@ class GraphState:
         # Set the actual values.
         if self.num_samples == 1:
             # If this GraphState holds only a single sample, set it from the given value.
+            if force_copy and isinstance(value, np.ndarray):
+                value = value.copy()
             self.states[node_name][var_name] = value
         elif np.isscalar(value):
             # If the value is a scalar, expand it to the correct number of samples.
-- 
2.43.0


From 790a377fc74f407ce01f8f77e73ab5cf21a1aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 04/97] fix: let GraphState.set() expand None to multiple
 samples like other constants

---
 src/lightcurvelynx/graph_state.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 1bce164..fcf7670 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -409,7 +409,8 @@ class GraphState:
         # Check the length of array inputs before changing anything, so that a rejected
         # value leaves no trace (such as a parameter that is counted, but not stored).
         is_fixed = var_name in self.fixed_vars.get(node_name, ())
-        if self.num_samples > 1 and not np.isscalar(value) and not is_fixed and len(value) != self.num_samples:
+        is_single = value is None or np.isscalar(value)
+        if self.num_samples > 1 and not is_single and not is_fixed and len(value) != self.num_samples:
             raise ValueError(
                 f"Incompatible number of samples when setting GraphState for node={node_name}, "
                 f"variable={var_name}: {self.num_samples} vs {len(value)}."
@@ -432,8 +433,8 @@ class GraphState:
             if force_copy and isinstance(value, np.ndarray):
                 value = value.copy()
             self.states[node_name][var_name] = value
-        elif np.isscalar(value):
-            # If the value is a scalar, expand it to the correct number of samples.
+        elif is_single:
+            # If the value is a scalar (or None), expand it to the correct number of samples.
             self.states[node_name][var_name] = np.full(self.num_samples, value)
         elif force_copy:
             self.states[node_name][var_name] = np.array(value.copy())
-- 
2.43.0


From fce793e192d0339608012d51b29781a9da5ec433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:46 +0000
Subject: [PATCH 05/97] fix: compare GraphStates with non-numeric values
 instead of raising TypeError

---
 src/lightcurvelynx/graph_state.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index fcf7670..afb3a6b 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -135,8 +135,13 @@ class GraphState:
             for var_name, var_value in node_params.items():
                 if var_name not in other_params:
                     return False
-                if not np.allclose(var_value, other_params[var_name]):
-                    return False
+                try:
+                    if not np.allclose(var_value, other_params[var_name]):
+                        return False
+                except TypeError:
+                    # The values are not numeric (e.g. None or strings).
+                    if not np.array_equal(var_value, other_params[var_name]):
+                        return False
 
         # Finally check that the 'fixed' dictionary is the same.
         return self.fixed_vars == other.fixed_vars
-- 
2.43.0


From 2594639265eac11f2d4a50ba5d817636aa8ce440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 06/97] fix: keep the fixed parameter sets in
 extract_single_sample() so slices can be updated

---
 src/lightcurvelynx/graph_state.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index afb3a6b..e83eb9d 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -511,6 +511,7 @@ class GraphState:
         new_state.num_parameters = self.num_parameters
         for node_name in self.states:
             new_state.states[node_name] = {}
+            new_state.fixed_vars[node_name] = self.fixed_vars[node_name].copy()
             for var_name, value in self.states[node_name].items():
                 if self.num_samples == 1:
                     new_state.states[node_name][var_name] = value
-- 
2.43.0


From e31b7a106ec6788ef5ff5a7f20c4fb8b05406f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 07/97] fix: write single sample GraphStates as one table row
 instead of an empty table

---
 src/lightcurvelynx/graph_state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index e83eb9d..af78003 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -604,7 +604,9 @@ class GraphState:
         values = Table()
         for node_name, node_params in self.states.items():
             for param_name, param_value in node_params.items():
-                values[self.extended_param_name(node_name, param_name)] = np.array(param_value)
+                # A single sample is stored as a bare value, but still needs to be a row in the table.
+                rows = [param_value] if self.num_samples == 1 else param_value
+                values[self.extended_param_name(node_name, param_name)] = np.array(rows)
         return values
 
     def to_dict(self):
-- 
2.43.0


From aa3bb69c6154e0b6cf50391a597badb9f7e40eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 08/97] fix: keep bare values when GraphState.from_list()
 produces a single sample

---
 src/lightcurvelynx/graph_state.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index af78003..d92f4f2 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -336,6 +336,11 @@ class GraphState:
         for full_name in all_param_full_names:
             node_name, param_name = full_name.split(".")
 
+            # A single sample is stored as a bare value instead of an array.
+            if total_samples == 1:
+                result.set(node_name, param_name, graph_states[0][full_name], force_copy=False, fixed=False)
+                continue
+
             # Create a numpy array that is the concatenation of all the values
             # from each of the GraphStates.
             values_list = []
-- 
2.43.0


From c278f6d504e26130cf1180a1fba1fba53eda2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 09/97] fix: read empty strings back from GraphState files
 instead of masking them

---
 src/lightcurvelynx/graph_state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index d92f4f2..3929742 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -251,7 +251,8 @@ class GraphState:
         filename : str or Path
             The name of the file.
         """
-        data_table = ascii.read(filename, format="ecsv")
+        # Do not treat empty strings as missing (masked) values.
+        data_table = ascii.read(filename, format="ecsv", fill_values=None)
         return GraphState.from_table(data_table)
 
     @classmethod
-- 
2.43.0


From 6a5e52fd14a03980b45f13b9ecbad0d5dda027b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 10/97] fix: renumber a graph's nodes when they were changed or
 numbered as part of another graph

---
 src/lightcurvelynx/base_models.py             | 37 +++++++++++++++----
 .../models/multi_object_model.py              | 17 +++++++--
 2 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/lightcurvelynx/base_models.py b/src/lightcurvelynx/base_models.py
index ffcbf26..679af61 100644
--- a/src/lightcurvelynx/base_models.py
+++ b/src/lightcurvelynx/base_models.py
@@ -261,6 +261,31 @@ class ParameterizedNode:
             if setter_info.dependency is not None and setter_info.dependency is not self:
                 setter_info.dependency.set_graph_positions(seen_nodes)
 
+    def _collect_nodes(self, nodes):
+        """Collect this node and (recursively) all the nodes on which it depends.
+
+        Parameters
+        ----------
+        nodes : set
+            The set of nodes found so far. This set is modified in place.
+        """
+        if self in nodes:
+            return
+        nodes.add(self)
+        for setter_info in self.setters.values():
+            if setter_info.dependency is not None:
+                setter_info.dependency._collect_nodes(nodes)
+
+    def _check_graph_positions(self):
+        """Renumber the nodes in this graph if any of them is missing a position (because its
+        parameters have changed) or two of them have the same position (because some of the nodes
+        have been numbered as part of another graph since)."""
+        nodes = set()
+        self._collect_nodes(nodes)
+        positions = {node.node_pos for node in nodes}
+        if None in positions or len(positions) != len(nodes):
+            self.set_graph_positions()
+
     def list_params(self):
         """Return a list of this node's parameterized values.
 
@@ -637,10 +662,8 @@ class ParameterizedNode:
         ValueError
             If the sampling encounters a problem with the order of dependencies.
         """
-        # If the graph structure has never been set, do that now.
-        if self.node_pos is None:
-            nodes = set()
-            self.set_graph_positions(seen_nodes=nodes)
+        # If the graph structure has never been set or is out of date, set it now.
+        self._check_graph_positions()
 
         # Create space for the results and set all the given_args as fixed parameters.
         results = GraphState(num_samples)
@@ -702,10 +725,8 @@ class ParameterizedNode:
         dependency_graph : DependencyGraph
             An object tracking the dependencies between parameters.
         """
-        # If the graph structure has never been set, do that now.
-        if self.node_pos is None:
-            nodes = set()
-            self.set_graph_positions(seen_nodes=nodes)
+        # If the graph structure has never been set or is out of date, set it now.
+        self._check_graph_positions()
 
         # Create space for the results and set all the given_args as fixed parameters.
         dependency_graph = DependencyGraph()
diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 2098781..ff79606 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -80,6 +80,18 @@ class MultiObjectModel(SEDModel):
         for object in self.objects:
             object.set_graph_positions(seen_nodes=seen_nodes)
 
+    def _collect_nodes(self, nodes):
+        """Collect this node and (recursively) all the nodes on which it depends.
+
+        Parameters
+        ----------
+        nodes : set
+            The set of nodes found so far. This set is modified in place.
+        """
+        super()._collect_nodes(nodes)
+        for object in self.objects:
+            object._collect_nodes(nodes)
+
     def set_apply_redshift(self, apply_redshift):
         """Toggles the apply_redshift setting.
 
@@ -136,9 +148,8 @@ class MultiObjectModel(SEDModel):
         graph_state : GraphState
             An object mapping graph parameters to their values.
         """
-        # If the graph has not been sampled ever, update the node positions for every node.
-        if self.node_pos is None:
-            self.set_graph_positions()
+        # If the graph structure has never been set or is out of date, set it now.
+        self._check_graph_positions()
 
         # We use the same seen_nodes for all sampling calls so each node
         # is sampled at most one time regardless of link structure.
-- 
2.43.0


From 9f5329c91d6675c7ba271700f6af7e2da7635a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 11/97] fix: include parameters set from their own node's
 parameters in the dependency graph

---
 src/lightcurvelynx/base_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/base_models.py b/src/lightcurvelynx/base_models.py
index 679af61..6435b80 100644
--- a/src/lightcurvelynx/base_models.py
+++ b/src/lightcurvelynx/base_models.py
@@ -704,9 +704,10 @@ class ParameterizedNode:
 
             # Recursively process any dependencies first, including constants.
             dep_name = None
-            if setter.dependency is not None and setter.dependency != self:
+            if setter.dependency is not None:
                 dep_name = GraphState.extended_param_name(setter.dependency.node_string, setter.value)
-                setter.dependency._dependency_graph_helper(dependency_graph)
+                if setter.dependency is not self:
+                    setter.dependency._dependency_graph_helper(dependency_graph)
             elif setter.source_type == ParameterSource.CONSTANT:
                 dep_name = dependency_graph.add_constant(setter.value)
 
-- 
2.43.0


From 8a7b063418760c098cb1e42ca8d29e8784abd764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 12/97] fix: let MultiObjectModel.set_apply_redshift() change
 the SED models instead of the bandflux models

---
 src/lightcurvelynx/models/multi_object_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index ff79606..db9698a 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -93,16 +93,18 @@ class MultiObjectModel(SEDModel):
             object._collect_nodes(nodes)
 
     def set_apply_redshift(self, apply_redshift):
-        """Toggles the apply_redshift setting.
+        """Toggles the apply_redshift setting of each object. This is not supported if any of
+        the objects is a BandfluxModel.
 
         Parameters
         ----------
         apply_redshift : bool
             The new value for apply_redshift.
         """
-        for idx, object in enumerate(self.objects):
-            if self._is_bandflux[idx]:
-                object.set_apply_redshift(apply_redshift)
+        if self._any_bandflux:
+            raise NotImplementedError("BandfluxModel does not support apply_redshift.")
+        for object in self.objects:
+            object.set_apply_redshift(apply_redshift)
 
     def add_effect(self, effect):
         """Add an effect to each of the submodels.
-- 
2.43.0


From a72c248e49fb3bc47ff868c7cfc0811e6c2b5843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 13/97] fix: look up the selected object by name in
 RandomMultiObjectModel.minwave() and maxwave()

---
 src/lightcurvelynx/models/multi_object_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index db9698a..423c28b 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -471,8 +471,9 @@ class RandomMultiObjectModel(MultiObjectModel):
             The minimum wavelength of the model (in angstroms) or None
             if the model does not have a defined minimum wavelength.
         """
-        idx = self.get_param(graph_state, "selected_object")
-        return self.objects[idx].minwave(graph_state=graph_state)
+        selected = self.get_param(graph_state, "selected_object")
+        model = self.object_map[selected] if selected in self.object_map else self.objects[selected]
+        return model.minwave(graph_state=graph_state)
 
     def maxwave(self, graph_state=None):
         """Get the maximum wavelength of the model.
@@ -489,8 +490,9 @@ class RandomMultiObjectModel(MultiObjectModel):
             The maximum wavelength of the model (in angstroms) or None
             if the model does not have a defined maximum wavelength.
         """
-        idx = self.get_param(graph_state, "selected_object")
-        return self.objects[idx].maxwave(graph_state=graph_state)
+        selected = self.get_param(graph_state, "selected_object")
+        model = self.object_map[selected] if selected in self.object_map else self.objects[selected]
+        return model.maxwave(graph_state=graph_state)
 
     def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
         """Evaluate the model and apply the effects for a single, given graph state.
-- 
2.43.0


From 1789114a1193249418cef251dab6258fd5c4b4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 14/97] fix: pass the keyword arguments on to compute_sed()
 when extrapolating wavelengths

---
 src/lightcurvelynx/models/physical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 2754ca7..1a1affb 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -371,7 +371,7 @@ class SEDModel(BasePhysicalModel):
 
         # Pad the wavelengths with the min and max values and compute the flux at those points.
         query_waves = np.concatenate(([min_valid_wave], wavelengths[in_range], [max_valid_wave]))
-        computed_flux = self.compute_sed(times, query_waves, graph_state)
+        computed_flux = self.compute_sed(times, query_waves, graph_state, **kwargs)
 
         # Initially zero pad the full array until we fill in the values with extrapolation.
         # We drop the first and last flux values since they were added to get the flux at the
-- 
2.43.0


From cba4a40d397e0b6c3a2df2a6fbafa399bde44695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 15/97] fix: accept integer weights in GivenValueSampler and
 leave the caller's weights unchanged

---
 src/lightcurvelynx/math_nodes/given_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/given_sampler.py b/src/lightcurvelynx/math_nodes/given_sampler.py
index 8b7abba..59325b8 100644
--- a/src/lightcurvelynx/math_nodes/given_sampler.py
+++ b/src/lightcurvelynx/math_nodes/given_sampler.py
@@ -150,10 +150,10 @@ class GivenValueSampler(NumpyRandomFunc):
 
         # Compute the normalized weights for each value.
         if weights is not None:
-            self._weights = np.asarray(weights)
+            self._weights = np.asarray(weights, dtype=float)
             if len(self._weights) != self._num_values:
                 raise ValueError("Weights must match the number of values provided.")
-            self._weights /= np.sum(self._weights)
+            self._weights = self._weights / np.sum(self._weights)
         else:
             self._weights = None
 
-- 
2.43.0


From c511da5df017885714317a10c17dcb73a96c6389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 16/97] fix: map draws below the first CDF sample to the first
 x in DistributionSampler

---
 src/lightcurvelynx/math_nodes/distribution_sampler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/distribution_sampler.py b/src/lightcurvelynx/math_nodes/distribution_sampler.py
index 9c27e6c..e70f166 100644
--- a/src/lightcurvelynx/math_nodes/distribution_sampler.py
+++ b/src/lightcurvelynx/math_nodes/distribution_sampler.py
@@ -52,10 +52,12 @@ class DistributionSampler(FunctionNode):
             raise ValueError("Probability density function (y) must be non-negative.")
 
         # Create the CDF values (and normalize it to 1) and then create an interpolation
-        # of the inverse CDF function.
+        # of the inverse CDF function. Values below the first CDF sample map to the first x.
         cdf_samples = np.cumsum(y)
         cdf_samples /= cdf_samples[-1]
-        self._inv_cdf = interp1d(cdf_samples, x, kind=kind, fill_value=0.0)
+        self._inv_cdf = interp1d(
+            cdf_samples, x, kind=kind, bounds_error=False, fill_value=(x[0], x[-1])
+        )
 
     def set_seed(self, new_seed):
         """Update the random number generator's seed to a given value.
-- 
2.43.0


From 14e531081b8aec7086e5dfc7ef7439a02ced3bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 17/97] fix: use the given random number generator in
 DistributionSampler

---
 src/lightcurvelynx/math_nodes/distribution_sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/distribution_sampler.py b/src/lightcurvelynx/math_nodes/distribution_sampler.py
index e70f166..0500e7f 100644
--- a/src/lightcurvelynx/math_nodes/distribution_sampler.py
+++ b/src/lightcurvelynx/math_nodes/distribution_sampler.py
@@ -96,7 +96,8 @@ class DistributionSampler(FunctionNode):
 
         # Draw samples of the CDF [0, 1] and then use the inverse CDF spline to map those
         # back to the corresponding x values.
-        cdf_points = self._rng.random(num_samples)
+        rng = rng_info if rng_info is not None else self._rng
+        cdf_points = rng.random(num_samples)
         x_samples = self._inv_cdf(cdf_points)
         self._save_results(x_samples, graph_state)
         return x_samples
-- 
2.43.0


From c2492d78b5f4f9522a2b58f8f4dc0a6d263013f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 18/97] fix: reject calls of anything but a named function with
 a ValueError in BasicMathNode

---
 src/lightcurvelynx/math_nodes/basic_math_node.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/basic_math_node.py b/src/lightcurvelynx/math_nodes/basic_math_node.py
index 79405e8..2001d1c 100644
--- a/src/lightcurvelynx/math_nodes/basic_math_node.py
+++ b/src/lightcurvelynx/math_nodes/basic_math_node.py
@@ -201,8 +201,8 @@ class BasicMathNode(FunctionNode):
                 continue
             elif isinstance(node, ast.Call):
                 # Check that function calls are only using items on the allow list.
-                if node.func.id not in self._math_map:
-                    raise ValueError(f"Unsupported function {node.func.id}")
+                if not isinstance(node.func, ast.Name) or node.func.id not in self._math_map:
+                    raise ValueError(f"Unsupported function {ast.unparse(node.func)}")
             elif isinstance(node, ast.Name):
                 if node.id in kwargs:
                     # This is a user supplied variable.
-- 
2.43.0


From 2116620208e0763dadc81df1978ac3a95ac389b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 19/97] fix: accept lists and integer densities in
 DistributionSampler

---
 src/lightcurvelynx/math_nodes/distribution_sampler.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/distribution_sampler.py b/src/lightcurvelynx/math_nodes/distribution_sampler.py
index 0500e7f..8607176 100644
--- a/src/lightcurvelynx/math_nodes/distribution_sampler.py
+++ b/src/lightcurvelynx/math_nodes/distribution_sampler.py
@@ -48,16 +48,14 @@ class DistributionSampler(FunctionNode):
         # Validate the inputs.
         if len(x) != len(y):
             raise ValueError(f"Length of x ({len(x)}) and y ({len(y)}) must be equal.")
-        if np.any(y < 0):
+        if np.any(np.asarray(y) < 0):
             raise ValueError("Probability density function (y) must be non-negative.")
 
         # Create the CDF values (and normalize it to 1) and then create an interpolation
         # of the inverse CDF function. Values below the first CDF sample map to the first x.
-        cdf_samples = np.cumsum(y)
+        cdf_samples = np.cumsum(y, dtype=float)
         cdf_samples /= cdf_samples[-1]
-        self._inv_cdf = interp1d(
-            cdf_samples, x, kind=kind, bounds_error=False, fill_value=(x[0], x[-1])
-        )
+        self._inv_cdf = interp1d(cdf_samples, x, kind=kind, bounds_error=False, fill_value=(x[0], x[-1]))
 
     def set_seed(self, new_seed):
         """Update the random number generator's seed to a given value.
-- 
2.43.0


From c5ab4537b3aa836546ba40bd02e3cbfd939d4ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 20/97] fix: compute max and min of BasicMathNode expressions
 per sample instead of over the samples

---
 .../math_nodes/basic_math_node.py             | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/basic_math_node.py b/src/lightcurvelynx/math_nodes/basic_math_node.py
index 2001d1c..413f610 100644
--- a/src/lightcurvelynx/math_nodes/basic_math_node.py
+++ b/src/lightcurvelynx/math_nodes/basic_math_node.py
@@ -16,6 +16,35 @@ import numpy as np  # noqa: F401
 from lightcurvelynx.base_models import FunctionNode
 
 
+def _elementwise(pairwise, first, *others):
+    """Combine the arguments of max or min element by element, so that arrays of samples
+    are never reduced along the samples (and the second argument is never used as an axis)."""
+    result = first
+    for value in others:
+        result = pairwise(result, value)
+    return result
+
+
+def _np_max(*args):
+    """The element-wise maximum of one or more numpy arrays."""
+    return _elementwise(np.maximum, *args)
+
+
+def _np_min(*args):
+    """The element-wise minimum of one or more numpy arrays."""
+    return _elementwise(np.minimum, *args)
+
+
+def _jnp_max(*args):
+    """The element-wise maximum of one or more JAX arrays."""
+    return _elementwise(jnp.maximum, *args)
+
+
+def _jnp_min(*args):
+    """The element-wise minimum of one or more JAX arrays."""
+    return _elementwise(jnp.minimum, *args)
+
+
 class BasicMathNode(FunctionNode):
     """A node that evaluates basic mathematical functions.
 
@@ -98,8 +127,8 @@ class BasicMathNode(FunctionNode):
         "log": ["math.log", "np.log", "jnp.log"],
         "log10": ["math.log10", "np.log10", "jnp.log10"],
         "log2": ["math.log2", "np.log2", "jnp.log2"],
-        "max": ["max", "np.max", "jnp.max"],  # Special handling for math
-        "min": ["min", "np.min", "jnp.min"],  # Special handling for math
+        "max": ["max", "_np_max", "_jnp_max"],  # Special handling for all
+        "min": ["min", "_np_min", "_jnp_min"],  # Special handling for all
         "pi": ["math.pi", "np.pi", "jnp.pi"],
         "pow": ["math.pow", "np.power", "jnp.power"],  # Special handling for numpy
         "power": ["math.pow", "np.power", "jnp.power"],  # Special handling for math
-- 
2.43.0


From 44ed5efccebf2deaf07bfd998891b8efbcd95076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 21/97] fix: keep every object of a RandomMultiObjectModel
 selectable when unlabeled objects share a name

---
 src/lightcurvelynx/models/multi_object_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 423c28b..a509223 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -451,7 +451,11 @@ class RandomMultiObjectModel(MultiObjectModel):
         super().__init__(objects, **kwargs)
 
         # Create a parameter to indicate which object was selected.
-        object_names = object_names or [src.node_string for src in objects]
+        if not object_names:
+            object_names = [src.node_string for src in objects]
+            if len(set(object_names)) != len(object_names):
+                # Objects without labels can share a name. Include the index to tell them apart.
+                object_names = [f"{name}_{idx}" for idx, name in enumerate(object_names)]
         self.object_map = {name: src for name, src in zip(object_names, objects, strict=False)}
         self._sampler_node = GivenValueSampler(object_names, weights=weights)
         self.add_parameter("selected_object", value=self._sampler_node, allow_gradient=False)
-- 
2.43.0


From e80338e343d9d0f85534719d061b38b42e837e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 22/97] fix: include the objects of a MultiObjectModel in its
 dependency graph and pytree

---
 .../models/multi_object_model.py              | 40 +++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index a509223..b7f69ac 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -92,6 +92,46 @@ class MultiObjectModel(SEDModel):
         for object in self.objects:
             object._collect_nodes(nodes)
 
+    def _dependency_graph_helper(self, dependency_graph):
+        """Internal recursive function to build a directed acyclic graph (DAG) representing
+        the parameters in the model and their dependencies, including those of the objects.
+
+        Parameters
+        ----------
+        dependency_graph : DependencyGraph
+            An object tracking the dependencies between parameters. This object is modified
+            in place to represent the current state.
+        """
+        super()._dependency_graph_helper(dependency_graph)
+        for object in self.objects:
+            object._dependency_graph_helper(dependency_graph)
+
+    def build_pytree(self, graph_state, partial=None):
+        """Build a JAX PyTree representation of the variables in this graph, including
+        those of the objects.
+
+        Parameters
+        ----------
+        graph_state : dict
+            A dictionary of dictionaries mapping node->hash, variable_name to value.
+            This data structure is modified in place to represent the current state.
+        partial : dict
+            The partial results so far. This is modified in place by the function.
+            A dictionary mapping node name to a dictionary mapping each variable's name
+            to its value.
+            Default: None
+
+        Returns
+        -------
+        values : dict
+            A dictionary mapping node name to a dictionary mapping each variable's name
+            to its value.
+        """
+        partial = super().build_pytree(graph_state, partial)
+        for object in self.objects:
+            partial = object.build_pytree(graph_state, partial)
+        return partial
+
     def set_apply_redshift(self, apply_redshift):
         """Toggles the apply_redshift setting of each object. This is not supported if any of
         the objects is a BandfluxModel.
-- 
2.43.0


From b3f320e642c064528225642ae91c6575c6f07e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 23/97] fix: store bare values for single samples with a radius
 in ObsTableRADECSampler

---
 src/lightcurvelynx/math_nodes/ra_dec_sampler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
index 8fd248e..a3c765b 100644
--- a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
+++ b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
@@ -141,6 +141,11 @@ class ObsTableRADECSampler(TableSampler):
             offset_amt = self.radius * np.sqrt(rng.uniform(0.0, 1.0, size=graph_state.num_samples))
             offset_ang = 2.0 * np.pi * rng.uniform(0.0, 1.0, size=graph_state.num_samples)
 
+            # If we are generating a single sample, use bare values.
+            if graph_state.num_samples == 1:
+                offset_amt = offset_amt[0]
+                offset_ang = offset_ang[0]
+
             # Add the offsets to RA and dec. Keep time unchanged.
             results[0] += offset_amt * np.cos(offset_ang)  # RA
             results[1] += offset_amt * np.sin(offset_ang)  # dec
-- 
2.43.0


From ae9381627aac188a4322cd495f7fa9fa8bdab32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 24/97] fix: apply each sample's parameters to its own array in
 NumpyRandomFunc with a size

---
 src/lightcurvelynx/math_nodes/np_random.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lightcurvelynx/math_nodes/np_random.py b/src/lightcurvelynx/math_nodes/np_random.py
index d81b04c..436dc33 100644
--- a/src/lightcurvelynx/math_nodes/np_random.py
+++ b/src/lightcurvelynx/math_nodes/np_random.py
@@ -129,6 +129,12 @@ class NumpyRandomFunc(FunctionNode):
             # If we are generating a single sample use None so it isn't in an array.
             size_param = None
 
+        # If we generate an array for each sample, apply each sample's parameters to its whole array.
+        if self.sample_size and graph_state.num_samples > 1:
+            for name, value in args.items():
+                if np.shape(value) == (graph_state.num_samples,):
+                    args[name] = np.reshape(value, (-1, *([1] * len(self.sample_size))))
+
         # Generate the values. Then save and return the results.
         results = func(**args, size=size_param)
         self._save_results(results, graph_state)
-- 
2.43.0


From 1f4da17fc18f536eb155b2fec3dbdc4162abb0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 25/97] fix: sample the objects of nested MultiObjectModels

---
 .../models/multi_object_model.py              | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index b7f69ac..574ca3c 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -200,12 +200,31 @@ class MultiObjectModel(SEDModel):
             graph_state.update(given_args, all_fixed=True)
 
         seen_nodes = {}
-        for object in self.objects:
-            object._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
         self._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
 
         return graph_state
 
+    def _sample_helper(self, graph_state, seen_nodes, rng_info=None):
+        """Internal recursive function to sample the objects' parameters followed by this
+        model's own parameters. The objects are sampled here so that this model can itself
+        be an object of another MultiObjectModel.
+
+        Parameters
+        ----------
+        graph_state : GraphState
+            An object mapping graph parameters to their values. This object is modified
+            in place as it is sampled.
+        seen_nodes : dict
+            A dictionary mapping nodes strings seen during this sampling run to their object.
+            Used to avoid sampling nodes multiple times and to validity check the graph.
+        rng_info : numpy.random._generator.Generator, optional
+            A given numpy random number generator to use for this computation. If not
+            provided, the function uses the node's random number generator.
+        """
+        for object in self.objects:
+            object._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
+        super()._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
+
     def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
         """Evaluate the model and apply the effects for a single, given graph state.
         This function applies redshift, computes the flux density for the object,
-- 
2.43.0


From 143deb3225a0e093b9b19aea22de0599a4fa4827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 26/97] fix: expand zero-dimensional arrays to multiple samples
 in GraphState.set()

---
 src/lightcurvelynx/graph_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 3929742..44220f2 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -420,7 +420,7 @@ class GraphState:
         # Check the length of array inputs before changing anything, so that a rejected
         # value leaves no trace (such as a parameter that is counted, but not stored).
         is_fixed = var_name in self.fixed_vars.get(node_name, ())
-        is_single = value is None or np.isscalar(value)
+        is_single = value is None or np.isscalar(value) or getattr(value, "ndim", None) == 0
         if self.num_samples > 1 and not is_single and not is_fixed and len(value) != self.num_samples:
             raise ValueError(
                 f"Incompatible number of samples when setting GraphState for node={node_name}, "
-- 
2.43.0


From 8c8674138642265f5a08ede1c46b5729ae8ee524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 27/97] fix: look up observations by row position in
 ObsTable.get_observations()

---
 src/lightcurvelynx/obstable/obs_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index d0c658d..898dfb7 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -654,7 +654,8 @@ class ObsTable:
             # by using the class accessor (__getitem__), instead of the table one.
             if col not in self:
                 raise KeyError(f"Unrecognized column name {col}")
-            results[col] = self[col][neighbors].to_numpy()
+            # The neighbors are row positions (not index labels).
+            results[col] = self[col].iloc[neighbors].to_numpy()
         return results
 
     def bandflux_error_point_source(self, bandflux, index):
-- 
2.43.0


From 7c7a16e9320155162ea00da43478fbd51046a2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 28/97] fix: update the list of filters in
 ObsTable.filter_rows()

---
 src/lightcurvelynx/obstable/obs_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 898dfb7..040c0d0 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -468,6 +468,8 @@ class ObsTable:
         self._table = self._table[mask]
         self._kd_tree = None
         self._build_kd_tree()
+        if "filter" in self._table.columns:
+            self.filters = np.unique(self._table["filter"])
 
         return self
 
-- 
2.43.0


From 970f559b883f3c3693517a9ecb2339e3b58f8e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 29/97] fix: accept scalar time bounds for multiple query
 points in ObsTable.range_search()

---
 src/lightcurvelynx/obstable/obs_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 040c0d0..8ad1a40 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -568,14 +568,14 @@ class ObsTable:
             if t_min is None:
                 t_min = np.full(num_queries, -np.inf)
             else:
-                t_min = np.atleast_1d(t_min)
+                t_min = np.full(num_queries, t_min) if np.isscalar(t_min) else np.atleast_1d(t_min)
             if len(t_min) != num_queries:
                 raise ValueError(f"t_min must be a scalar or an array of length {num_queries}.")
 
             if t_max is None:
                 t_max = np.full(num_queries, np.inf)
             else:
-                t_max = np.atleast_1d(t_max)
+                t_max = np.full(num_queries, t_max) if np.isscalar(t_max) else np.atleast_1d(t_max)
             if len(t_max) != num_queries:
                 raise ValueError(f"t_max must be a scalar or an array of length {num_queries}.")
 
-- 
2.43.0


From 394244be749e7143ef20dd8dfd678715bd43aa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 30/97] fix: check every result in ObsTable.is_observed() when
 only one coordinate is an array

---
 src/lightcurvelynx/obstable/obs_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 8ad1a40..be811a3 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -500,7 +500,7 @@ class ObsTable:
             of query points.
         """
         inds = self.range_search(query_ra, query_dec, radius=radius, t_min=t_min, t_max=t_max)
-        if np.isscalar(query_ra):
+        if np.isscalar(query_ra) and np.isscalar(query_dec):
             return len(inds) > 0
         return [len(entry) > 0 for entry in inds]
 
-- 
2.43.0


From 7769e84fac64ec351edbba608f5144e08ca27f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 31/97] fix: do not write the row index as a column in
 ObsTable.write_db()

---
 src/lightcurvelynx/obstable/obs_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index be811a3..2eb51b8 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -397,7 +397,7 @@ class ObsTable:
 
         con = sqlite3.connect(filename)
         try:
-            self._table.to_sql(tablename, con, if_exists=if_exists)
+            self._table.to_sql(tablename, con, if_exists=if_exists, index=False)
         except Exception:
             raise ValueError("Database write failed.") from None
 
-- 
2.43.0


From 62a6442d19ba4aafe8c5e4192871642168dbbf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 32/97] fix: keep existing times of ZTF tables that also have
 an obsdate column

---
 src/lightcurvelynx/obstable/ztf_obstable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/ztf_obstable.py b/src/lightcurvelynx/obstable/ztf_obstable.py
index ca1c0cf..c63f249 100644
--- a/src/lightcurvelynx/obstable/ztf_obstable.py
+++ b/src/lightcurvelynx/obstable/ztf_obstable.py
@@ -75,7 +75,7 @@ class ZTFObsTable(ObsTable):
 
         # Make a copy of the table data with the obsdate converted to the MJD and
         # save in time.
-        if "obsdate" in table and "obsmjd" not in table:
+        if "obsdate" in table and "obsmjd" not in table and "time" not in table:
             table = table.copy()
             t = Time(list(table["obsdate"]), format="iso", scale="utc")
             table["obsmjd"] = t.mjd
-- 
2.43.0


From 7b1e0e5e7866635c4a5210893a79e3f93d45d5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 33/97] fix: derive ZTF zero points from the table's survey
 values

---
 src/lightcurvelynx/obstable/ztf_obstable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/obstable/ztf_obstable.py b/src/lightcurvelynx/obstable/ztf_obstable.py
index c63f249..6fef411 100644
--- a/src/lightcurvelynx/obstable/ztf_obstable.py
+++ b/src/lightcurvelynx/obstable/ztf_obstable.py
@@ -99,9 +99,9 @@ class ZTFObsTable(ObsTable):
             maglim=self._table["maglim"],
             sky=self._table["sky"],
             fwhm=self._table["fwhm"],
-            gain=_ztfcam_ccd_gain,
-            readnoise=_ztfcam_readout_noise,
-            darkcurrent=_ztfcam_dark_current,
+            gain=self.safe_get_survey_value("gain"),
+            readnoise=self.safe_get_survey_value("read_noise"),
+            darkcurrent=self.safe_get_survey_value("dark_current"),
             exptime=self._table["exptime"],
             nexposure=1,
         )
-- 
2.43.0


From 1f64657cedbefa5a6359ff45a7ae6370b34817dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 34/97] fix: allow oversampling an OpSim when the bands do not
 divide the number of times

---
 src/lightcurvelynx/obstable/opsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/opsim.py b/src/lightcurvelynx/obstable/opsim.py
index 622fb73..7920d25 100644
--- a/src/lightcurvelynx/obstable/opsim.py
+++ b/src/lightcurvelynx/obstable/opsim.py
@@ -324,7 +324,7 @@ def oversample_opsim(
             "time": new_times,
             "ra": ra,
             "dec": dec,
-            "filter": np.tile(bands, n // len(bands)),
+            "filter": np.resize(bands, n),
         }
     )
     other_columns = [column for column in observations.columns if column not in new_table.columns]
-- 
2.43.0


From de9828e9c13c50160e18c192f1ef44c63cafd814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 35/97] fix: read the given file in RomanObsTable instead of
 failing

---
 src/lightcurvelynx/obstable/roman_obstable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/roman_obstable.py b/src/lightcurvelynx/obstable/roman_obstable.py
index db90386..6d3c641 100644
--- a/src/lightcurvelynx/obstable/roman_obstable.py
+++ b/src/lightcurvelynx/obstable/roman_obstable.py
@@ -59,11 +59,11 @@ def _get_roman_char():
 
 def _get_ma_table(ma_table_path=None):
     if ma_table_path is None:
-        ma_table_file = (
+        ma_table_path = (
             _LIGHTCURVELYNX_BASE_DATA_DIR
             / "roman_characterization/roman_wfi_imaging_multiaccum_tables_with_exptime.csv"
         )
-    ma_table = pd.read_csv(ma_table_file)
+    ma_table = pd.read_csv(ma_table_path)
 
     return ma_table
 
-- 
2.43.0


From cfbbe4efbc650a3a9a9a5081f7b1b64281bafbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 36/97] fix: leave the caller's table unchanged in
 RomanObsTable

---
 src/lightcurvelynx/obstable/roman_obstable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/roman_obstable.py b/src/lightcurvelynx/obstable/roman_obstable.py
index 6d3c641..a1f545f 100644
--- a/src/lightcurvelynx/obstable/roman_obstable.py
+++ b/src/lightcurvelynx/obstable/roman_obstable.py
@@ -103,7 +103,7 @@ class RomanObsTable(ObsTable):
     def __init__(self, table, colmap=None, ma_table_path=None, **kwargs):
         colmap = self._default_colnames if colmap is None else colmap
 
-        self.apt_table = table
+        self.apt_table = pd.DataFrame(table).copy()
         self.ma_table = _get_ma_table(ma_table_path)
         roman_char = _get_roman_char()
         self.zp_table = roman_char["zp_table"]
-- 
2.43.0


From 8bc19fd8c4353b5fc2d386528bcebddab4c82c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 37/97] fix: keep the survey values stored with the table in
 FakeObsTable

---
 src/lightcurvelynx/obstable/fake_obs_table.py | 26 +++----------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/src/lightcurvelynx/obstable/fake_obs_table.py b/src/lightcurvelynx/obstable/fake_obs_table.py
index 999f4a3..95ff1e5 100644
--- a/src/lightcurvelynx/obstable/fake_obs_table.py
+++ b/src/lightcurvelynx/obstable/fake_obs_table.py
@@ -63,6 +63,7 @@ class FakeObsTable(ObsTable):
         "exptime": 30,  # seconds
         "fwhm_px": None,  # pixels
         "nexposure": 1,  # exposures
+        "psf_footprint": None,  # pixels
         "radius": None,  # degrees
         "read_noise": 0,  # electrons
         "sky": None,  # electrons / pixel^2
@@ -76,33 +77,14 @@ class FakeObsTable(ObsTable):
         colmap=None,
         zp_per_band=None,
         const_flux_error=None,
-        dark_current=0,
-        exptime=30,
-        psf_footprint=None,
-        fwhm_px=None,
-        nexposure=1,
-        radius=None,
-        read_noise=0,
-        sky=None,
         **kwargs,
     ):
         self.zp_per_band = zp_per_band
         self.const_flux_error = const_flux_error
 
-        # Pass along all the survey parameters to the parent class.
-        super().__init__(
-            table,
-            colmap=colmap,
-            dark_current=dark_current,
-            exptime=exptime,
-            psf_footprint=psf_footprint,
-            fwhm_px=fwhm_px,
-            nexposure=nexposure,
-            radius=radius,
-            read_noise=read_noise,
-            sky=sky,
-            **kwargs,
-        )
+        # Pass along all the given survey parameters to the parent class. The others come from
+        # the table's metadata (if it has any) or from the defaults.
+        super().__init__(table, colmap=colmap, **kwargs)
 
         if const_flux_error is not None:
             # Convert a constant into a per-band dictionary.
-- 
2.43.0


From 9014b6d13344530bbbbb083257a4a58d7982dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:47 +0000
Subject: [PATCH 38/97] fix: reject columns of the wrong length for empty
 tables in ObsTable.add_column()

---
 src/lightcurvelynx/obstable/obs_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 2eb51b8..273708a 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -373,6 +373,8 @@ class ObsTable:
         # If the input is a scalar, turn it into an array of the correct length
         if np.isscalar(values):
             values = np.full((len(self._table)), values)
+        if len(values) != len(self._table):
+            raise ValueError(f"Expected {len(self._table)} values for column {colname}, got {len(values)}.")
         self._table[colname] = values
 
     def write_db(self, filename, *, tablename="observations", overwrite=False):
-- 
2.43.0


From 0000fd00544ef3de29823d0a215c918b624deb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 39/97] fix: apply no time window to samples without a t0
 instead of raising TypeError

---
 src/lightcurvelynx/simulate.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 37b39bb..8a81cea 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -39,11 +39,15 @@ def get_time_windows(t0, time_window_offset):
         raise ValueError("time_window_offset must be a tuple of (before, after) in days.")
     before, after = time_window_offset
 
-    # If t0 is a scalar apply the offset directly.
-    if np.isscalar(t0):
-        t0 = np.array([t0])
-    start_times = t0 - before if before is not None else None
-    end_times = t0 + after if after is not None else None
+    # Samples without a t0 do not have a time window (the window is unbounded if only some have one).
+    t0 = np.atleast_1d(t0)
+    no_t0 = np.array([val is None for val in t0])
+    if np.all(no_t0):
+        return None, None
+    t0 = np.where(no_t0, 0.0, t0).astype(float)
+
+    start_times = np.where(no_t0, -np.inf, t0 - before) if before is not None else None
+    end_times = np.where(no_t0, np.inf, t0 + after) if after is not None else None
 
     return start_times, end_times
 
-- 
2.43.0


From 68f25222c04e28ad6339e9a62c057a3e39915359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 40/97] fix: simulate objects without any observations when
 saving ObsTable columns

---
 src/lightcurvelynx/simulate.py | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 8a81cea..ee9089d 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -180,20 +180,16 @@ def simulate_lightcurves(
 
         for survey_idx in range(num_surveys):
             # Find the indices and times where the current model is seen.
-            obs_index = np.asarray(all_obs_matches[survey_idx][idx])
-            if len(obs_index) == 0:
-                obs_times = []
-                obs_filters = []
-            else:
-                obs_times = all_times[survey_idx][obs_index]
-
-                # Filter to only the "interesting" indices / times for this object.
-                if apply_obs_mask:
-                    obs_mask = model.mask_by_time(obs_times, state)
-                    obs_index = obs_index[obs_mask]
-                    obs_times = obs_times[obs_mask]
-                # Extract the filters for this observation.
-                obs_filters = all_filters[survey_idx][obs_index]
+            obs_index = np.asarray(all_obs_matches[survey_idx][idx], dtype=int)
+            obs_times = all_times[survey_idx][obs_index]
+
+            # Filter to only the "interesting" indices / times for this object.
+            if apply_obs_mask and len(obs_index) > 0:
+                obs_mask = model.mask_by_time(obs_times, state)
+                obs_index = obs_index[obs_mask]
+                obs_times = obs_times[obs_mask]
+            # Extract the filters for this observation.
+            obs_filters = all_filters[survey_idx][obs_index]
 
             # Compute the bandfluxes and errors over just the given filters.
             bandfluxes_perfect = model.evaluate_bandfluxes(
-- 
2.43.0


From def6f20b308cf22b0186ad63c28ac30813d5cb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 41/97] fix: use the given random number generator for the
 effects in simulate_lightcurves()

---
 src/lightcurvelynx/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index ee9089d..4466272 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -193,7 +193,7 @@ def simulate_lightcurves(
 
             # Compute the bandfluxes and errors over just the given filters.
             bandfluxes_perfect = model.evaluate_bandfluxes(
-                passbands[survey_idx], obs_times, obs_filters, state
+                passbands[survey_idx], obs_times, obs_filters, state, rng_info=rng
             )
             bandfluxes_error = obstable[survey_idx].bandflux_error_point_source(bandfluxes_perfect, obs_index)
             bandfluxes = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=rng)
-- 
2.43.0


From 9c108b012a0ea95ff11ebfe085c01f426d1e91f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:28 +0000
Subject: [PATCH 42/97] fix: accept integer phases in
 compute_single_noise_free_lightcurve()

---
 src/lightcurvelynx/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 4466272..5721f44 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -293,7 +293,7 @@ def compute_single_noise_free_lightcurve(
 
     t0 = model.get_param(graph_state, "t0")
     if t0 is not None:
-        times += t0
+        times = times + t0
 
     # Compute the light curve without noise for each time in each filter.
     lightcurves = {"times": times, "rest_phase": rest_phase}
-- 
2.43.0


From 9b84c6a47ed699e7fd1ff95442ade4bb19f2c86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 43/97] fix: integrate bandfluxes with the actual step of the
 passband's wave grid

---
 src/lightcurvelynx/astro_utils/passbands.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 7346a61..dce4853 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -1208,7 +1208,11 @@ class Passband:
             # integration and removing half the first and last values (to make it trapezoidal).
             first_val = np.take(integrand, 0, axis=w_axis)
             last_val = np.take(integrand, -1, axis=w_axis)
-            bandfluxes = (np.sum(integrand, axis=w_axis) - 0.5 * (first_val + last_val)) * self.delta_wave
+
+            # Use the grid's actual step. It can differ (slightly) from delta_wave, because the grid covers
+            # the table's full range even if that is not a multiple of delta_wave.
+            step = (self.waves[-1] - self.waves[0]) / (len(self.waves) - 1)
+            bandfluxes = (np.sum(integrand, axis=w_axis) - 0.5 * (first_val + last_val)) * step
         else:
             # Do the full integration.
             bandfluxes = scipy.integrate.trapezoid(integrand, x=self.waves, axis=w_axis)
-- 
2.43.0


From c3697d94c5d920ec767058b7edce9918cfaa53d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 44/97] fix: average duplicate wavelengths of transmission
 tables instead of raising TypeError

---
 src/lightcurvelynx/astro_utils/passbands.py | 26 ++++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index dce4853..54c8f92 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -704,9 +704,7 @@ class Passband:
             raise ValueError("Wavelengths in transmission table must be strictly increasing.")
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
-            dup_inds = np.where(diffs == 0.0)
-            table_values[dup_inds, 1] = 0.5 * (table_values[dup_inds, 1] + table_values[dup_inds + 1, 1])
-            table_values = np.delete(table_values, dup_inds + 1, axis=0)
+            table_values = Passband._average_duplicate_wavelengths(table_values)
         self._loaded_table = np.copy(table_values)
 
         # Ensure the wavelengths are in Angstroms.
@@ -997,12 +995,28 @@ class Passband:
             raise ValueError("Wavelengths in transmission table must be increasing.")
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
-            dup_inds = np.where(diffs == 0.0)
-            loaded_table[dup_inds, 1] = 0.5 * (loaded_table[dup_inds, 1] + loaded_table[dup_inds + 1, 1])
-            loaded_table = np.delete(loaded_table, dup_inds + 1, axis=0)
+            loaded_table = Passband._average_duplicate_wavelengths(loaded_table)
 
         return loaded_table
 
+    @staticmethod
+    def _average_duplicate_wavelengths(table: np.ndarray) -> np.ndarray:
+        """Merge the rows with the same wavelength into a single row with their average transmission.
+
+        Parameters
+        ----------
+        table : np.ndarray
+            A 2D array of (sorted) wavelengths and transmissions. It is not modified.
+
+        Returns
+        -------
+        np.ndarray
+            A 2D array of strictly increasing wavelengths and transmissions.
+        """
+        waves, inverse, counts = np.unique(table[:, 0], return_inverse=True, return_counts=True)
+        transmissions = np.bincount(inverse.ravel(), weights=table[:, 1]) / counts
+        return np.column_stack((waves, transmissions))
+
     def process_transmission_table(
         self,
         delta_wave: float | None = 5.0,
-- 
2.43.0


From b1a6be5d063cbb590c42971c5fd1e72d313a4d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 45/97] fix: map merged wavelengths of a PassbandGroup to the
 wavelength they were merged into

---
 src/lightcurvelynx/astro_utils/passbands.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 54c8f92..51b3278 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -495,7 +495,9 @@ class PassbandGroup:
             if np.array_equal(self.waves[lower_index : upper_index + 1], passband.waves):
                 indices = slice(lower_index, upper_index + 1)
             else:
-                indices = np.searchsorted(self.waves, passband.waves)
+                # Each of the passband's wavelengths maps to the closest one at or before it, because
+                # wavelengths within the threshold were merged into the first of them.
+                indices = np.searchsorted(self.waves, passband.waves, side="right") - 1
             self._in_band_wave_indices[name] = indices
 
     def wave_bounds(self):
-- 
2.43.0


From d2c1121561b027f77257efda2c4ae3331ccdad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 46/97] fix: raise the ValueError for passbands without any
 transmission

---
 src/lightcurvelynx/astro_utils/passbands.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 51b3278..ad0b5b6 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -1159,8 +1159,7 @@ class Passband:
             raise ValueError(
                 "Denominator is zero; cannot normalize transmission table. "
                 f"Consider checking the transmission table for band {self.full_name}. "
-                f"With wave grid set to: {self._wave_grid}, transmission table wavelengths are: "
-                f"{transmission_table[:, 0]}."
+                f"Transmission table wavelengths are: {transmission_table[:, 0]}."
             )
 
         # Calculate phi_b for each wavelength
-- 
2.43.0


From edc222c8ecdd4a4e8420d96374f86e41d79a60f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:04 +0000
Subject: [PATCH 47/97] fix: reject ambiguous filter names in
 PassbandGroup.fluxes_to_bandflux()

---
 src/lightcurvelynx/astro_utils/passbands.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index ad0b5b6..bdc7789 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -567,7 +567,12 @@ class PassbandGroup:
             A length T array of bandfluxes for the given passband.
         """
         if filter not in self.passbands:
-            if filter in self._filter_to_name:
+            if len(self._filter_to_name.get(filter, [])) > 1:
+                raise ValueError(
+                    f"Filter {filter} corresponds to multiple passbands: {self._filter_to_name[filter]}.\n"
+                    "Use the passband's full name."
+                )
+            elif filter in self._filter_to_name:
                 filter = self._filter_to_name[filter][0]
             else:
                 raise ValueError(f"Filter {filter} not found in passband group.")
-- 
2.43.0


From 0672fb5b6203fc8fba4be73fd181b70c33f1375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 48/97] fix: accept transmission tables of integers in
 nanometers

---
 src/lightcurvelynx/astro_utils/passbands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index bdc7789..6f38003 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -712,7 +712,7 @@ class Passband:
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
             table_values = Passband._average_duplicate_wavelengths(table_values)
-        self._loaded_table = np.copy(table_values)
+        self._loaded_table = np.array(table_values, dtype=float)
 
         # Ensure the wavelengths are in Angstroms.
         if units == "nm":
-- 
2.43.0


From 2491724f92dfde5a7d2089da847196b28cb0a4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 49/97] fix: oversample OpSims whose row labels are not unique

---
 src/lightcurvelynx/obstable/opsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightcurvelynx/obstable/opsim.py b/src/lightcurvelynx/obstable/opsim.py
index 7920d25..43b8348 100644
--- a/src/lightcurvelynx/obstable/opsim.py
+++ b/src/lightcurvelynx/obstable/opsim.py
@@ -295,6 +295,7 @@ def oversample_opsim(
     """
     ra, dec = pointing
     observations = opsim._table.iloc[opsim.range_search(ra, dec, radius=search_radius)]
+    observations = observations.reset_index(drop=True)  # The labels might not be unique.
     if len(observations) == 0:
         raise ValueError("No observations found for the given pointing.")
 
-- 
2.43.0


From cd51b693a258c6b591d09018a564279c46897316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 50/97] fix: accept light curves of integers in LightcurveData

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index e98ff0e..1487520 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -94,7 +94,7 @@ class LightcurveData:
 
         if isinstance(lightcurves, dict):
             # Make a copy of the light curves to avoid modifying the original data.
-            self.lightcurves = {filter: lc.copy() for filter, lc in lightcurves.items()}
+            self.lightcurves = {filter: np.array(lc, dtype=float) for filter, lc in lightcurves.items()}
         elif isinstance(lightcurves, np.ndarray):
             if lightcurves.shape[1] != 3:
                 raise ValueError("Light curves array must have 3 columns: time, flux, and filter.")
-- 
2.43.0


From 2d80f29e011e289da87a6cc03d6c7dc722f4d52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 51/97] fix: convert only given baselines from magnitudes in
 LightcurveData and leave the caller's unchanged

---
 .../models/lightcurve_template_model.py               | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index 1487520..e0a17ba 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -145,12 +145,11 @@ class LightcurveData:
             for filter in self.lightcurves:
                 if filter not in baseline:
                     raise ValueError(f"Baseline value for filter {filter} is missing.")
-            self.baseline = baseline
-
-        # Convert the baseline from magnitudes to fluxes if needed.
-        if magnitudes_in:
-            for filter in self.baseline:
-                self.baseline[filter] = mag2flux(self.baseline[filter])
+            # Make a copy of the baseline to avoid modifying the original data. Convert it from
+            # magnitudes to fluxes if needed.
+            self.baseline = {
+                filter: (mag2flux(value) if magnitudes_in else value) for filter, value in baseline.items()
+            }
 
     def __len__(self):
         """Get the number of light curves."""
-- 
2.43.0


From 5413a319718d36fac349e90fe2590a1700d0ff62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 52/97] fix: place the SED basis of light curve templates on
 the group's own indices for merged wavelengths

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index e0a17ba..9157e41 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -462,8 +462,9 @@ class BaseLightcurveTemplateModel(BandfluxModel, ABC):
             # Get all of the wavelengths that have a non-negligible transmission value
             # for this filter and find their indices in the passband group.
             is_significant = passbands[filter].processed_transmission_table[:, 1] > 1e-5
-            significant_waves = passbands[filter].waves[is_significant]
-            indices = np.searchsorted(passbands.waves, significant_waves)
+            indices = np.arange(len(passbands.waves))[
+                passbands._in_band_wave_indices[passbands[filter].full_name]
+            ][is_significant]
 
             # Mark all non-negligible wavelengths as used by this filter.
             waves_per_filter[idx, indices] = 1.0
-- 
2.43.0


From 7355b9187cf07e528bde19e872a22eba52d20111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 53/97] fix: accept a LightcurveData instance in
 LightcurveTemplateModel

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index 9157e41..a0c223e 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -644,7 +644,10 @@ class LightcurveTemplateModel(BaseLightcurveTemplateModel):
         **kwargs,
     ):
         # Store the light curve data, parsing out different formats if needed.
-        self.lightcurves = LightcurveData(lightcurves, lc_data_t0, periodic=periodic, baseline=baseline)
+        if isinstance(lightcurves, LightcurveData):
+            self.lightcurves = lightcurves
+        else:
+            self.lightcurves = LightcurveData(lightcurves, lc_data_t0, periodic=periodic, baseline=baseline)
         super().__init__(passbands, filters=self.lightcurves.filters, **kwargs)
 
     def compute_sed(self, times, wavelengths, graph_state):
-- 
2.43.0


From 938455e09c636b32f253032d0582c6ff7e2f3d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 54/97] fix: accept additional keyword arguments in
 StaticSEDModel.compute_sed()

---
 src/lightcurvelynx/models/static_sed_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/static_sed_model.py b/src/lightcurvelynx/models/static_sed_model.py
index d44a01d..02180d9 100644
--- a/src/lightcurvelynx/models/static_sed_model.py
+++ b/src/lightcurvelynx/models/static_sed_model.py
@@ -177,7 +177,7 @@ class StaticSEDModel(SEDModel):
         idx = self.get_param(graph_state, "selected_idx")
         return self.sed_values[idx][0, -1]
 
-    def compute_sed(self, times, wavelengths, graph_state):
+    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
         """Draw effect-free observer frame flux densities.
 
         Parameters
@@ -188,6 +188,8 @@ class StaticSEDModel(SEDModel):
             A length N array of observer frame wavelengths (in angstroms).
         graph_state : GraphState
             An object mapping graph parameters to their values.
+        **kwargs : dict, optional
+            Any additional keyword arguments.
 
         Returns
         -------
-- 
2.43.0


From dd642abf8b397c57ee42f02dc64646657f65c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 55/97] fix: compare the separation with GaussianGalaxy's
 radius in degrees

---
 src/lightcurvelynx/models/galaxy_models.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/models/galaxy_models.py b/src/lightcurvelynx/models/galaxy_models.py
index b4240f9..fd1952d 100644
--- a/src/lightcurvelynx/models/galaxy_models.py
+++ b/src/lightcurvelynx/models/galaxy_models.py
@@ -60,11 +60,13 @@ class GaussianGalaxy(SEDModel):
 
         dist = 0.0
         if ra is not None and dec is not None:
-            dist = angular_separation(
-                params["ra"] * np.pi / 180.0,
-                params["dec"] * np.pi / 180.0,
-                ra * np.pi / 180.0,
-                dec * np.pi / 180.0,
+            dist = np.degrees(
+                angular_separation(
+                    params["ra"] * np.pi / 180.0,
+                    params["dec"] * np.pi / 180.0,
+                    ra * np.pi / 180.0,
+                    dec * np.pi / 180.0,
+                )
             )
 
         # Scale the brightness as a Guassian function centered on the object's RA and Dec.
-- 
2.43.0


From 257d64b8fd6e0b688d118fad9edeb100cf6a5f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 56/97] fix: evaluate SplineModel at times and wavelengths in
 any order

---
 src/lightcurvelynx/models/spline_model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/spline_model.py b/src/lightcurvelynx/models/spline_model.py
index 572526f..de3d81e 100644
--- a/src/lightcurvelynx/models/spline_model.py
+++ b/src/lightcurvelynx/models/spline_model.py
@@ -5,6 +5,7 @@ It is adapted from sncosmo's TimeSeriesSource model:
 https://github.com/sncosmo/sncosmo/blob/v2.10.1/sncosmo/models.py
 """
 
+import numpy as np
 from scipy.interpolate import RectBivariateSpline
 
 from lightcurvelynx.models.physical_model import SEDModel
@@ -187,5 +188,9 @@ class SplineModel(SEDModel):
         if t0 is None:
             t0 = 0.0
 
-        fluxes = params["amplitude"] * self._spline(times - t0, wavelengths, grid=True)
-        return fluxes
+        # The spline requires sorted times and wavelengths.
+        t_order = np.argsort(times)
+        w_order = np.argsort(wavelengths)
+        fluxes = np.empty((len(times), len(wavelengths)))
+        fluxes[np.ix_(t_order, w_order)] = self._spline(times[t_order] - t0, wavelengths[w_order], grid=True)
+        return params["amplitude"] * fluxes
-- 
2.43.0


From f8c4ec51c749a8a82da16d34f0799f7c58c18e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 57/97] fix: use the given random number generator for the
 random walk of AGNs

---
 src/lightcurvelynx/models/agn.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/agn.py b/src/lightcurvelynx/models/agn.py
index 8ad18ba..2767835 100644
--- a/src/lightcurvelynx/models/agn.py
+++ b/src/lightcurvelynx/models/agn.py
@@ -478,7 +478,15 @@ class AGN(SEDModel):
         G = constants.G.cgs.value
         return 2 ** (3 / 4) * (3 / 7) ** (7 / 4) * (G * M * Mdot / (np.pi * sigma_sb * r_in**3)) ** (1 / 4)
 
-    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
+    def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
+        """Evaluate the model for a single, given graph state. Passes the random number generator
+        (if one is given) on to the damped random walk. See SEDModel._evaluate_single().
+        """
+        return super()._evaluate_single(
+            times, wavelengths, state, rng_info=rng_info, walk_rng=rng_info, **kwargs
+        )
+
+    def compute_sed(self, times, wavelengths, graph_state, walk_rng=None, **kwargs):
         """Draw effect-free observations for this object.
 
         Parameters
@@ -489,6 +497,9 @@ class AGN(SEDModel):
             A length N array of wavelengths (in angstroms).
         graph_state : `GraphState`
             An object mapping graph parameters to their values.
+        walk_rng : numpy.random._generator.Generator, optional
+            A given numpy random number generator to use for the damped random walk. If not
+            provided, the function uses the node's random number generator.
         **kwargs : `dict`, optional
             Any additional keyword arguments.
 
@@ -523,7 +534,7 @@ class AGN(SEDModel):
             tau_v,
             sf_inf,
             params["t0"],
-            rng=self._rng,
+            rng=walk_rng if walk_rng is not None else self._rng,
         )
 
         flux_density = 10 ** (-0.4 * delta_m) * fnu_average
-- 
2.43.0


From 3666e82e5e93536815a174187391e672d2b3eaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 58/97] fix: accept single points in
 DetectorFootprint.sky_to_pixel()

---
 src/lightcurvelynx/astro_utils/detector_footprint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/detector_footprint.py b/src/lightcurvelynx/astro_utils/detector_footprint.py
index 4ce9916..e751949 100644
--- a/src/lightcurvelynx/astro_utils/detector_footprint.py
+++ b/src/lightcurvelynx/astro_utils/detector_footprint.py
@@ -124,10 +124,10 @@ class DetectorFootprint:
 
         # Center everything on 0.0
         lon_t = offset.lon.deg
-        lon_t[lon_t > 180.0] -= 360.0
+        lon_t = np.where(lon_t > 180.0, lon_t - 360.0, lon_t)
 
         lat_t = offset.lat.deg
-        lat_t[lat_t > 90.0] -= 180.0
+        lat_t = np.where(lat_t > 90.0, lat_t - 180.0, lat_t)
 
         return lon_t, lat_t
 
-- 
2.43.0


From 69646b6fa25a230e20fb88b5d043d9e3a8505e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:56 +0000
Subject: [PATCH 59/97] fix: offset pointings with integer coordinates in
 ObsTableRADECSampler

---
 src/lightcurvelynx/math_nodes/ra_dec_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
index a3c765b..60ccd2d 100644
--- a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
+++ b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
@@ -147,8 +147,8 @@ class ObsTableRADECSampler(TableSampler):
                 offset_ang = offset_ang[0]
 
             # Add the offsets to RA and dec. Keep time unchanged.
-            results[0] += offset_amt * np.cos(offset_ang)  # RA
-            results[1] += offset_amt * np.sin(offset_ang)  # dec
+            results[0] = results[0] + offset_amt * np.cos(offset_ang)  # RA
+            results[1] = results[1] + offset_amt * np.sin(offset_ang)  # dec
 
             # Resave the results (overwriting the previous results)
             self._save_results(results, graph_state)
-- 
2.43.0


From 0a197026973fc13c3cfc3cfbb7c22cfdc1223c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 60/97] fix: augment light curves with observations of
 undefined SNR in results_augment_lightcurves()

---
 src/lightcurvelynx/utils/post_process_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 8092744..3387dcb 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -144,7 +144,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
     # Compute SNR and detection flag.
     snr = lightcurve_compute_snr(flux, fluxerr)
     results["lightcurve.snr"] = snr
-    results["lightcurve.detection"] = [(x is not None and x >= min_snr) for x in snr]
+    results["lightcurve.detection"] = [(x is not ma.masked and x >= min_snr) for x in snr]
 
     # Compute magnitude and magnitude error.
     mag, magerr = lightcurve_compute_mag(flux, fluxerr)
-- 
2.43.0


From da6c329d1d9780bb03277c115540a8ef4b9846da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 61/97] fix: subtract each row's own t0 in
 results_augment_lightcurves()

---
 src/lightcurvelynx/utils/post_process_results.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 3387dcb..cd93d81 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -156,8 +156,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
         if "mjd" not in results["lightcurve"].nest.fields:
             raise ValueError("lightcurve.mjd must be present in the DataFrame.")
 
-        # Get the index for the t0 entry for each lightcurve MJD and use that
-        # to subtract out the reference t0.
-        t0 = np.asanyarray(results["t0"])
-        t0_idx = np.array(results["lightcurve"]["mjd"].index)
-        results["lightcurve.time_rel"] = results["lightcurve.mjd"] - t0[t0_idx]
+        # Repeat the t0 of each row for each of its observations (row labels may be missing,
+        # reordered or repeated) and use that to subtract out the reference t0.
+        t0 = np.repeat(np.asarray(results["t0"]), results["lightcurve"].nest.list_lengths)
+        results["lightcurve.time_rel"] = results["lightcurve.mjd"] - t0
-- 
2.43.0


From 5ac3202f67af50c65663b84a6ce2088d2990f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:40 +0000
Subject: [PATCH 62/97] fix: compute relative times also if an object's t0 is
 zero

---
 src/lightcurvelynx/utils/post_process_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index cd93d81..57017c4 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -152,7 +152,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
     results["lightcurve.magerr"] = magerr
 
     # If t0 is provided as a column in results, compute relative time.
-    if "t0" in results.columns and np.all(results["t0"]) and results["t0"].notna().all():
+    if "t0" in results.columns and results["t0"].notna().all():
         if "mjd" not in results["lightcurve"].nest.fields:
             raise ValueError("lightcurve.mjd must be present in the DataFrame.")
 
-- 
2.43.0


From 4d4a2d2e3c625a63cad19540a65c6a4e145f430c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 63/97] fix: drop empty light curves also after augmenting in
 results_drop_empty()

---
 src/lightcurvelynx/utils/post_process_results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 57017c4..508cd00 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -21,7 +21,8 @@ def results_drop_empty(results):
     nested_pandas.NestedFrame
         The DataFrame with empty lightcurves removed.
     """
-    return results.dropna(subset=["lightcurve"])
+    # Lightcurves without any observations can be missing or (e.g. after augmenting) of length zero.
+    return results[results["lightcurve"].nest.list_lengths > 0]
 
 
 def lightcurve_compute_snr(flux, fluxerr):
-- 
2.43.0


From dba787eb49f48c29ddea4d671b81348207b82de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 64/97] fix: scale grid files of integer values in
 BicubicInterpolator.from_grid_file()

---
 src/lightcurvelynx/utils/bicubic_interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/bicubic_interp.py b/src/lightcurvelynx/utils/bicubic_interp.py
index 8f8a868..57fddcc 100644
--- a/src/lightcurvelynx/utils/bicubic_interp.py
+++ b/src/lightcurvelynx/utils/bicubic_interp.py
@@ -187,7 +187,7 @@ class BicubicInterpolator:
             Default: 1.0
         """
         x_vals, y_vals, z_vals = read_grid_data(filename)
-        z_vals *= scale_factor
+        z_vals = z_vals * scale_factor
         return BicubicInterpolator(x_vals, y_vals, z_vals)
 
     def __call__(self, x_q, y_q):
-- 
2.43.0


From 6b9811c80e298e898fd56ab60c38e926a41be696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 65/97] fix: evaluate sncosmo models at times and wavelengths
 in any order

---
 src/lightcurvelynx/models/sncomso_models.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/sncomso_models.py b/src/lightcurvelynx/models/sncomso_models.py
index 37a664d..c3c13dc 100644
--- a/src/lightcurvelynx/models/sncomso_models.py
+++ b/src/lightcurvelynx/models/sncomso_models.py
@@ -267,8 +267,11 @@ class SncosmoWrapperModel(SEDModel, CiteClass):
         if np.any(wavelengths < self.source.minwave()) or np.any(wavelengths > self.source.maxwave()):
             return self.compute_sed_with_extrapolation(times, wavelengths, graph_state, **kwargs)
 
-        # Query the model and convert the output to nJy.
-        model_flam = self.source.flux(times - params["t0"], wavelengths)
+        # Query the model and convert the output to nJy. sncosmo requires the phases and
+        # wavelengths to be in increasing order, so evaluate the unique values of each.
+        phases, phase_inds = np.unique(times - params["t0"], return_inverse=True)
+        waves, wave_inds = np.unique(wavelengths, return_inverse=True)
+        model_flam = self.source.flux(phases, waves)[phase_inds][:, wave_inds]
         model_fnu = flam_to_fnu(
             model_flam,
             wavelengths,
-- 
2.43.0


From 4027ee533c304ce091bccdb6f31bdf71d747d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 66/97] fix: a rejected SncosmoWrapperModel.set() leaves the
 model usable

---
 src/lightcurvelynx/models/sncomso_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/sncomso_models.py b/src/lightcurvelynx/models/sncomso_models.py
index c3c13dc..2fa74c4 100644
--- a/src/lightcurvelynx/models/sncomso_models.py
+++ b/src/lightcurvelynx/models/sncomso_models.py
@@ -168,6 +168,8 @@ class SncosmoWrapperModel(SEDModel, CiteClass):
         **kwargs : dict
             The parameters to set and their values.
         """
+        # Set the source's parameters first, so that an unknown parameter leaves the model unchanged.
+        self.source.set(**kwargs)
         for key, value in kwargs.items():
             if hasattr(self, key):
                 self.set_parameter(key, value)
@@ -175,7 +177,6 @@ class SncosmoWrapperModel(SEDModel, CiteClass):
                 self.add_parameter(key, value)
             if key not in self.source_param_names:
                 self.source_param_names.append(key)
-        self.source.set(**kwargs)
 
     def _sample_helper(self, graph_state, seen_nodes, rng_info=None):
         """Internal recursive function to sample the model's underlying parameters
-- 
2.43.0


From d867016941884e7348cf12e328a6d63de3f30973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 67/97] fix: use the sampled Rv in the host extinction of
 BayesnModel

---
 src/lightcurvelynx/models/bayesn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/bayesn.py b/src/lightcurvelynx/models/bayesn.py
index 0e1bcfa..84b7fc4 100644
--- a/src/lightcurvelynx/models/bayesn.py
+++ b/src/lightcurvelynx/models/bayesn.py
@@ -488,7 +488,7 @@ class BayesnModel(SEDModel, CiteClass):
         # Apply dust extinction law
         # Get ebv such that ebv = Rv/Av
         ebv = params["Av"] / params["Rv"]
-        ext = ExtinctionEffect(extinction_model="F99", ebv=ebv, frame="rest")
+        ext = ExtinctionEffect(extinction_model="F99", ebv=ebv, frame="rest", Rv=params["Rv"])
         flux_density = ext.apply(flux_density, tau, wavelengths, ebv)
 
         # Apply the fixed distance modulus normalisation factor effect
-- 
2.43.0


From ea9a1357312ce7cda8f5418775d3c1d0e4a5d161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 68/97] fix: interpolate the BayeSN template with a natural
 cubic spline in both directions

---
 src/lightcurvelynx/models/bayesn.py | 175 +---------------------------
 1 file changed, 5 insertions(+), 170 deletions(-)

diff --git a/src/lightcurvelynx/models/bayesn.py b/src/lightcurvelynx/models/bayesn.py
index 84b7fc4..c065f2b 100644
--- a/src/lightcurvelynx/models/bayesn.py
+++ b/src/lightcurvelynx/models/bayesn.py
@@ -2,6 +2,7 @@ import h5py
 import numpy as np
 from astropy import units as u
 from citation_compass import CiteClass
+from scipy.interpolate import CubicSpline
 
 from lightcurvelynx import _LIGHTCURVELYNX_BASE_DATA_DIR
 from lightcurvelynx.astro_utils.unit_utils import flam_to_fnu
@@ -217,173 +218,9 @@ class BayesnModel(SEDModel, CiteClass):
         J += c[:, None] * invKD[idxs] + d[:, None] * invKD[idxs + 1]
         return J
 
-    def compute_second_derivatives_1d(self, x, y):
-        """
-        Compute natural cubic spline second derivatives (M) for 1D input.
-
-        Parameters
-        ----------
-        x : (n,) array_like
-            Knot positions.
-        y : (n,) array_like
-            Values at knots.
-
-        Returns
-        -------
-        M : (n,) ndarray
-            Second derivatives at knots.
-        """
-        n = len(x)
-        h = np.diff(x)
-
-        # Step1: Compute RHS alpha for the linear system
-        alpha = np.zeros(n)
-        for i in range(1, n - 1):
-            alpha[i] = (3 / h[i]) * (y[i + 1] - y[i]) - (3 / h[i - 1]) * (y[i] - y[i - 1])
-
-        # Step 2: Forward elimination (Thomas algorithm for tridiagonal system)
-        wave = np.ones(n)
-        mu = np.zeros(n)
-        z = np.zeros(n)
-        for i in range(1, n - 1):
-            wave[i] = 2 * (x[i + 1] - x[i - 1]) - h[i - 1] * mu[i - 1]
-            mu[i] = h[i] / wave[i]
-            z[i] = (alpha[i] - h[i - 1] * z[i - 1]) / wave[i]
-
-        # Step 3: Back substitution to solve for second derivatives
-        M = np.zeros(n)
-        for j in range(n - 2, 0, -1):
-            M[j] = z[j] - mu[j] * M[j + 1]
-        return M
-
-    def compute_2d_second_derivatives(self, x, y, z):
-        """
-        Compute second derivatives in both x and y directions for 2D natural cubic spline.
-
-        Parameters
-        ----------
-        x : (n,) array_like
-            Knot positions in x.
-        y : (m,) array_like
-            Knot positions in y.
-        z : (n, m) array_like
-            Function values on 2D grid.
-
-        Returns
-        -------
-        Mx : (n, m) ndarray
-            Second derivatives with respect to x.
-        My : (n, m) ndarray
-            Second derivatives with respect to y.
-        """
-        n, m = len(x), len(y)
-        Mx = np.zeros((n, m))
-        My = np.zeros((n, m))
-
-        # Compute second derivatives in x-direction (columns)
-        for j in range(m):
-            Mx[:, j] = self.compute_second_derivatives_1d(x, z[:, j])
-
-        # Compute second derivatives in y-direction (rows)
-        for i in range(n):
-            My[i, :] = self.compute_second_derivatives_1d(y, z[i, :])
-
-        return Mx, My
-
-    def evaluate_natural_spline_2d_vectorized(self, x, y, z, Mx, My, xq, yq):
-        """
-        Vectorized 2D natural cubic spline evaluation using second derivatives.
-
-        Parameters
-        ----------
-        x : (n,) array_like
-            Knot positions in x.
-        y : (m,) array_like
-            Knot positions in y.
-        z : (n, m) array_like
-            Function values on 2D grid.
-        Mx : (n, m) array_like
-            Second derivatives w.r.t. x.
-        My : (n, m) array_like
-            Second derivatives w.r.t. y.
-        xq : (p,) array_like
-            Query positions in x.
-        yq : (q,) array_like
-            Query positions in y.
-
-        Returns
-        -------
-        Zq : (p, q) ndarray
-            Interpolated 2D surface values.
-        """
-        xq = np.atleast_1d(xq)
-        yq = np.atleast_1d(yq)
-        nx, ny = len(x), len(y)
-        px, py = len(xq), len(yq)
-
-        xi_idx = np.clip(np.searchsorted(x, xq) - 1, 0, nx - 2)
-        yj_idx = np.clip(np.searchsorted(y, yq) - 1, 0, ny - 2)
-
-        Zq = np.zeros((px, py))
-
-        # Loop over y query points
-        for j in range(py):
-            y0_idx = yj_idx[j]
-            y1_idx = y0_idx + 1
-            hy = y[y1_idx] - y[y0_idx]
-            ay = (y[y1_idx] - yq[j]) / hy
-            by = 1 - ay
-
-            f_y0 = []  # Interpolated values along x at y0
-            f_y1 = []  # Interpolated values along x at y1
-
-            # Loop over x query points
-            for i in range(px):
-                x0_idx = xi_idx[i]
-                x1_idx = x0_idx + 1
-                hx = x[x1_idx] - x[x0_idx]
-                ax = (x[x1_idx] - xq[i]) / hx
-                bx = 1 - ax
-
-                # Values at 4 corners
-                z00 = z[x0_idx, y0_idx]
-                z10 = z[x1_idx, y0_idx]
-                z01 = z[x0_idx, y1_idx]
-                z11 = z[x1_idx, y1_idx]
-
-                Mx00 = Mx[x0_idx, y0_idx]
-                Mx10 = Mx[x1_idx, y0_idx]
-                Mx01 = Mx[x0_idx, y1_idx]
-                Mx11 = Mx[x1_idx, y1_idx]
-
-                # Interpolate in x for both fixed y0 and y1
-                fx0 = (ax**3 * Mx00 + bx**3 * Mx10) * hx / 6 + (
-                    ax * (z00 - Mx00 * hx**2 / 6) + bx * (z10 - Mx10 * hx**2 / 6)
-                )
-                fx1 = (ax**3 * Mx01 + bx**3 * Mx11) * hx / 6 + (
-                    ax * (z01 - Mx01 * hx**2 / 6) + bx * (z11 - Mx11 * hx**2 / 6)
-                )
-
-                f_y0.append(fx0)
-                f_y1.append(fx1)
-
-            # Interpolate final result in y
-            f_y0 = np.array(f_y0)
-            f_y1 = np.array(f_y1)
-
-            # Spline in y using fx0 and fx1
-            My0 = My[xi_idx, y0_idx]
-            My1 = My[xi_idx, y1_idx]
-
-            Zq[:, j] = (ay**3 * My0 + by**3 * My1) * hy / 6 + (
-                ay * (f_y0 - My0 * hy**2 / 6) + by * (f_y1 - My1 * hy**2 / 6)
-            )
-
-        return Zq
-
     def evaluate_2d_cubic_spline(self, x, y, z, xq, yq):
         """
-        Evaluate 2D natural cubic spline at given query points with auto second derivative computation.
+        Evaluate 2D natural cubic spline at given query points.
 
         Parameters
         ----------
@@ -403,11 +240,9 @@ class BayesnModel(SEDModel, CiteClass):
         Zq : (p, q) ndarray
             Interpolated values at query grid.
         """
-        # Automatically compute second derivatives in both directions
-        Mx, My = self.compute_2d_second_derivatives(x, y, z)
-
-        # Evaluate spling using the precomputed derivatives
-        return self.evaluate_natural_spline_2d_vectorized(x, y, z, Mx, My, xq, yq)
+        # Interpolate along x for every y knot and then along y for every x query point.
+        z_at_xq = CubicSpline(x, z, axis=0, bc_type="natural")(np.atleast_1d(xq))
+        return CubicSpline(y, z_at_xq, axis=1, bc_type="natural")(np.atleast_1d(yq))
 
     def mask_by_time(self, times, graph_state=None):
         """Compute a mask for whether a given time is of interest for a given object.
-- 
2.43.0


From 0677bd5c60940997ae1f4b9bc5a74057213367f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 69/97] fix: read back the .dat files that write_numpy_data()
 writes

---
 src/lightcurvelynx/utils/io_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 17891b5..6136345 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -8,7 +8,7 @@ from astropy.table import Table
 
 def read_numpy_data(file_path):
     """Read in a numpy array from different formats depending on the file extension.
-    Automatically detects and handles files in .npy, .npz, .csv, .ecsv, and .txt
+    Automatically detects and handles files in .npy, .npz, .csv, .ecsv, .txt, and .dat
     formats.
 
     Parameters
@@ -33,7 +33,7 @@ def read_numpy_data(file_path):
         data = np.load(file_path)["arr_0"]
     elif file_path.suffix in [".csv", ".ecsv"]:
         data = np.loadtxt(file_path, delimiter=",", comments="#")
-    elif file_path.suffix in [".txt"]:
+    elif file_path.suffix in [".txt", ".dat"]:
         data = np.loadtxt(file_path, comments="#")
     else:
         raise ValueError(f"Unsupported file format: {file_path.suffix}.")
@@ -43,7 +43,7 @@ def read_numpy_data(file_path):
 
 def write_numpy_data(file_path, data):
     """Write a numpy array to a file in a format determined by the file extension.
-    Automatically detects and handles files in .npy, .npz, .csv, .ecsv, and .txt
+    Automatically detects and handles files in .npy, .npz, .csv, .ecsv, .txt, and .dat
     formats.
 
     Parameters
-- 
2.43.0


From 49512b0be5420dae6b13670dcbd27182899f9cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 70/97] fix: read grid data from FITS files and file-like
 objects in read_grid_data()

---
 src/lightcurvelynx/utils/io_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 6136345..70f2979 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -100,10 +100,12 @@ def read_grid_data(input_file, format="ascii", validate=False):
     ValueError if any data validation fails.
     """
     logging.debug(f"Loading file {input_file} (format={format})")
-    if not Path(input_file).is_file():
+    if not hasattr(input_file, "read") and not Path(input_file).is_file():
         raise FileNotFoundError(f"File {input_file} not found.")
 
-    data = Table.read(input_file, format=format, comment=r"\s*#")
+    # Only the text formats have (and accept a pattern for) comments.
+    read_args = {"comment": r"\s*#"} if format.startswith("ascii") else {}
+    data = Table.read(input_file, format=format, **read_args)
     if len(data.colnames) != 3:
         raise ValueError(
             f"Incorrect format for grid data in {input_file} with format {format}. "
-- 
2.43.0


From 3e061498c76be9de1b850ed69119d8235b36ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 71/97] fix: keep the metadata of LCLIB events apart in
 read_lclib_data()

---
 src/lightcurvelynx/utils/io_utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 70f2979..e209c1b 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -166,6 +166,7 @@ def _read_lclib_data_from_open_file(input_file):
     colnames = []
     curves = []
     meta = {}
+    header = None
     current_model = {}
     parnames = []
     in_doc_block = False
@@ -208,8 +209,14 @@ def _read_lclib_data_from_open_file(input_file):
             if len(colnames) == 0:
                 raise ValueError(f"Error on line= {l_num}: No filters defined.")
 
+            # The keys before the first event apply to all of them. The keys within an
+            # event apply to that event only.
+            if header is None:
+                header = meta
+            meta = dict(header)
+
             # Start a new light curve, but resetting the lists of data from the columns.
-            current_model["type"] = []  # Initialize the type list.
+            current_model = {"type": []}  # Initialize the type list.
             for col in colnames:
                 current_model[col] = []
             meta["id"] = value
-- 
2.43.0


From 2a96cecd08f91d54300e57c0e30313dbdf33d39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 72/97] fix: download an existing file again if force_download
 is set

---
 src/lightcurvelynx/utils/data_download.py | 31 +++++++++++++++++------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/lightcurvelynx/utils/data_download.py b/src/lightcurvelynx/utils/data_download.py
index 1f805ba..949e31b 100644
--- a/src/lightcurvelynx/utils/data_download.py
+++ b/src/lightcurvelynx/utils/data_download.py
@@ -39,15 +39,30 @@ def download_data_file_if_needed(data_path, data_url, force_download=False):
     # Create the directory in which to save the file if it does not already exist.
     data_path.parent.mkdir(parents=True, exist_ok=True)
 
+    # Pooch does not download a file again if it already exists, so move a previous version
+    # out of the way. It is put back if the download fails.
+    previous_path = None
+    if data_path.exists():
+        previous_path = data_path.with_name(data_path.name + ".previous")
+        data_path.replace(previous_path)
+
     # Use pooch to download the data files and extract them to the data directory.
-    full_path = pooch.retrieve(
-        url=data_url,
-        known_hash=None,
-        fname=data_path.name,
-        path=data_path.parent,
-    )
-
-    if full_path is None or not Path(full_path).exists():
+    try:
+        full_path = pooch.retrieve(
+            url=data_url,
+            known_hash=None,
+            fname=data_path.name,
+            path=data_path.parent,
+        )
+        success = full_path is not None and Path(full_path).exists()
+    finally:
+        if previous_path is not None:
+            if data_path.exists():
+                previous_path.unlink()
+            else:
+                previous_path.replace(data_path)
+
+    if not success:
         logger.error(f"Transmission table not downloaded from {data_url}.")
         return False
     return True
-- 
2.43.0


From 4ca87624bc32e28085776ddea60feb2c67bb82bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:53 +0000
Subject: [PATCH 73/97] fix: accept units and force_download for the Roman
 passbands

---
 src/lightcurvelynx/astro_utils/passbands.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 6f38003..697004e 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -339,12 +339,11 @@ class PassbandGroup:
         passbands = []
 
         # Check that units are what is expected for this preset.
-        if kwargs.get("units", "micron") != "micron":
-            raise ValueError(
-                f"Roman passbands are expected to be in microns (micron), but got {kwargs.get('units')}"
-            )
+        units = kwargs.pop("units", "micron")
+        if units != "micron":
+            raise ValueError(f"Roman passbands are expected to be in microns (micron), but got {units}")
 
-        force_download = kwargs.get("force_download", False)
+        force_download = kwargs.pop("force_download", False)
         table_path = table_dir / "Roman" / "roman_wfi_filters.ecsv"
         table_url = (
             "https://github.com/RomanSpaceTelescope/roman-technical-information/blob/main/data/"
-- 
2.43.0


From c6be0d90a89910ff283bdd0d2d4277b70c4169dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 74/97] fix: accept integer cosmological parameters in the SN
 Ia nodes

---
 src/lightcurvelynx/astro_utils/snia_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/snia_utils.py b/src/lightcurvelynx/astro_utils/snia_utils.py
index 3f22571..653f577 100644
--- a/src/lightcurvelynx/astro_utils/snia_utils.py
+++ b/src/lightcurvelynx/astro_utils/snia_utils.py
@@ -1,3 +1,5 @@
+from numbers import Real
+
 import astropy.units as u
 import numpy as np
 import scipy.integrate as integrate
@@ -299,7 +301,7 @@ class DistModFromRedshift(FunctionNode):
 
     def __init__(self, redshift, H0=73.0, Omega_m=0.3, **kwargs):
         # Create the cosmology once for this node.
-        if not isinstance(H0, float) or not isinstance(Omega_m, float):
+        if not isinstance(H0, Real) or not isinstance(Omega_m, Real):
             raise ValueError("H0 and Omega_m must be constants.")
         self.cosmo = FlatLambdaCDM(H0=H0, Om0=Omega_m)
 
@@ -349,7 +351,7 @@ class SNCoordGivenPhysicalSep(FunctionNode):
 
     def __init__(self, host_ra, host_dec, physical_sep_kpc, redshift, H0=73.0, Omega_m=0.3, **kwargs):
         # Create the cosmology once for this node.
-        if not isinstance(H0, float) or not isinstance(Omega_m, float):
+        if not isinstance(H0, Real) or not isinstance(Omega_m, Real):
             raise ValueError("H0 and Omega_m must be constants.")
         self.cosmo = FlatLambdaCDM(H0=H0, Om0=Omega_m)
 
-- 
2.43.0


From 762e409dbf3c493463b4bd45e485c95a3546af45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 75/97] fix: draw the position angles of
 SNCoordGivenPhysicalSep from the given generator

---
 src/lightcurvelynx/astro_utils/snia_utils.py | 57 ++++++++++++++++++--
 1 file changed, 54 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/snia_utils.py b/src/lightcurvelynx/astro_utils/snia_utils.py
index 653f577..7fb7b58 100644
--- a/src/lightcurvelynx/astro_utils/snia_utils.py
+++ b/src/lightcurvelynx/astro_utils/snia_utils.py
@@ -1,4 +1,5 @@
 from numbers import Real
+from os import urandom
 
 import astropy.units as u
 import numpy as np
@@ -345,16 +346,26 @@ class SNCoordGivenPhysicalSep(FunctionNode):
         The Hubble constant.
     Omega_m : constant
         The matter density Omega_m.
+    seed : int, optional
+        The seed to use for the random position angles.
     **kwargs : dict, optional
         Any additional keyword arguments.
     """
 
-    def __init__(self, host_ra, host_dec, physical_sep_kpc, redshift, H0=73.0, Omega_m=0.3, **kwargs):
+    def __init__(
+        self, host_ra, host_dec, physical_sep_kpc, redshift, H0=73.0, Omega_m=0.3, seed=None, **kwargs
+    ):
         # Create the cosmology once for this node.
         if not isinstance(H0, Real) or not isinstance(Omega_m, Real):
             raise ValueError("H0 and Omega_m must be constants.")
         self.cosmo = FlatLambdaCDM(H0=H0, Om0=Omega_m)
 
+        # Get a default random number generator for this object, using the
+        # given seed if one is provided.
+        if seed is None:
+            seed = int.from_bytes(urandom(4), "big")
+        self._rng = np.random.default_rng(seed=seed)
+
         # Call the super class's constructor with the needed information.
         super().__init__(
             func=self._sn_coord,
@@ -366,6 +377,42 @@ class SNCoordGivenPhysicalSep(FunctionNode):
             **kwargs,
         )
 
+    def set_seed(self, new_seed):
+        """Update the random number generator's seed to a given value.
+
+        Parameters
+        ----------
+        new_seed : int
+            The given seed
+        """
+        self._rng = np.random.default_rng(seed=new_seed)
+
+    def compute(self, graph_state, rng_info=None, **kwargs):
+        """Compute the SN coordinates.
+
+        Parameters
+        ----------
+        graph_state : GraphState
+            An object mapping graph parameters to their values. This object is modified
+            in place as it is sampled.
+        rng_info : numpy.random._generator.Generator, optional
+            A given numpy random number generator to use for this computation. If not
+            provided, the function uses the node's random number generator.
+        **kwargs : dict, optional
+            Additional function arguments.
+
+        Returns
+        -------
+        results : any
+            The result of the computation. This return value is provided so that testing
+            functions can easily access the results.
+        """
+        args = self._build_inputs(graph_state, **kwargs)
+        rng = rng_info if rng_info is not None else self._rng
+        results = self._sn_coord(**args, rng=rng)
+        self._save_results(results, graph_state)
+        return results
+
     def _host_sn_angular_separation(self, physical_sep_kpc, redshift):
         """
         Function for calculating host-sn angular separation.
@@ -388,7 +435,7 @@ class SNCoordGivenPhysicalSep(FunctionNode):
 
         return angular_sep_rad
 
-    def _sn_coord(self, host_ra, host_dec, physical_sep_kpc, redshift):
+    def _sn_coord(self, host_ra, host_dec, physical_sep_kpc, redshift, rng=None):
         """
         Function to generate SN coordinates given the host coordinates and angular separation.
 
@@ -402,6 +449,9 @@ class SNCoordGivenPhysicalSep(FunctionNode):
             The physical host-sn separation(s) in kpc.
         redshift : float or numpy.ndarray
             The redshift to convert physical separation to angular separation.
+        rng : numpy.random._generator.Generator, optional
+            The random number generator to use for the position angles. If not
+            provided, the function uses the node's random number generator.
 
         Returns
         -------
@@ -413,7 +463,8 @@ class SNCoordGivenPhysicalSep(FunctionNode):
 
         self.angular_sep_rad = self._host_sn_angular_separation(physical_sep_kpc, redshift)
         center = SkyCoord(host_ra * u.deg, host_dec * u.deg, frame="icrs")
-        rand_pa = 2 * np.pi * np.random.random(center.size) * u.rad  # random position angle
+        rng = rng if rng is not None else self._rng
+        rand_pa = 2 * np.pi * rng.random(center.size) * u.rad  # random position angle
 
         sn_coord = center.directional_offset_by(rand_pa, self.angular_sep_rad)
         ra = sn_coord.ra.deg
-- 
2.43.0


From c3cab2a01f12492e53f83ba5074253be07798f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 76/97] fix: do not truncate zeropoints if the first band's
 value is an integer

---
 src/lightcurvelynx/astro_utils/zeropoint.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/zeropoint.py b/src/lightcurvelynx/astro_utils/zeropoint.py
index 88182d5..8b099f8 100644
--- a/src/lightcurvelynx/astro_utils/zeropoint.py
+++ b/src/lightcurvelynx/astro_utils/zeropoint.py
@@ -51,8 +51,9 @@ def magnitude_electron_zeropoint(  # noqa: D103
     instr_zp = _lsstcam_zeropoint_per_sec_zenith if instr_zp is None else instr_zp
     ext_coeff = _lsstcam_extinction_coeff if ext_coeff is None else ext_coeff
 
-    instr_zp_getter = np.vectorize(instr_zp.get)
-    ext_coeff_getter = np.vectorize(ext_coeff.get)
+    # Give the output type, because otherwise it is that of the first band's value.
+    instr_zp_getter = np.vectorize(instr_zp.__getitem__, otypes=[float])
+    ext_coeff_getter = np.vectorize(ext_coeff.__getitem__, otypes=[float])
 
     return instr_zp_getter(band) + ext_coeff_getter(band) * (airmass - 1) + 2.5 * np.log10(exptime)
 
-- 
2.43.0


From c45b37d9c97c3df16dafbdebb1f7852f05532cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:42 +0000
Subject: [PATCH 77/97] fix: draw single samples from conditional flows in
 PZFlowNode

---
 src/lightcurvelynx/astro_utils/pzflow_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/pzflow_node.py b/src/lightcurvelynx/astro_utils/pzflow_node.py
index 58e2ced..ce02816 100644
--- a/src/lightcurvelynx/astro_utils/pzflow_node.py
+++ b/src/lightcurvelynx/astro_utils/pzflow_node.py
@@ -101,7 +101,7 @@ class PZFlowNode(FunctionNode, CiteClass):
             all_params = self.get_local_params(graph_state)
             input_params = {}
             for col in self.conditional_cols:
-                input_params[col] = all_params[col]
+                input_params[col] = np.atleast_1d(all_params[col])
             input_df = pd.DataFrame(input_params)
 
             samples = self.flow.sample(1, conditions=input_df, seed=seed)
-- 
2.43.0


From cec11c13eeade884b2c5edaa6a56cd7d4ebf2c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:09 +0000
Subject: [PATCH 78/97] fix: do not overflow on integer wavelengths in
 flam_to_fnu() and fnu_to_flam()

---
 src/lightcurvelynx/astro_utils/unit_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/unit_utils.py b/src/lightcurvelynx/astro_utils/unit_utils.py
index 9944624..7733323 100644
--- a/src/lightcurvelynx/astro_utils/unit_utils.py
+++ b/src/lightcurvelynx/astro_utils/unit_utils.py
@@ -48,7 +48,7 @@ def flam_to_fnu(flux_flam, wavelengths, *, wave_unit, flam_unit, fnu_unit):
         The flux values in fnu units.
     """
     flux_flam = np.asarray(flux_flam)
-    wavelengths = np.asarray(wavelengths)
+    wavelengths = np.asarray(wavelengths, dtype=float)
 
     # Check if we need to reshape wavelengths to match the number
     # of rows in flux_flam.
@@ -95,7 +95,7 @@ def fnu_to_flam(flux_fnu, wavelengths, *, wave_unit, flam_unit, fnu_unit):
         The flux values in flam units.
     """
     flux_fnu = np.asarray(flux_fnu)
-    wavelengths = np.asarray(wavelengths)
+    wavelengths = np.asarray(wavelengths, dtype=float)
 
     # Check if we need to reshape wavelengths to match the number
     # of rows in flux_fnu.
-- 
2.43.0


From c1c422948d57aebf7ecb5b11b64dfa7da58d9c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 79/97] fix: keep the conditions and conversion function of the
 priors in BilbyPriorNode

---
 src/lightcurvelynx/math_nodes/bilby_priors.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/bilby_priors.py b/src/lightcurvelynx/math_nodes/bilby_priors.py
index 2dc6564..00db9a2 100644
--- a/src/lightcurvelynx/math_nodes/bilby_priors.py
+++ b/src/lightcurvelynx/math_nodes/bilby_priors.py
@@ -49,7 +49,7 @@ class BilbyPriorNode(FunctionNode, CiteClass):
             self.set_seed(seed)
 
         # Set the prior. If the prior is provided as a dictionary, convert it to a Bilby
-        # PriorDict object.
+        # PriorDict object. A PriorDict is used as is (it may be conditional or have constraints).
         if isinstance(prior, dict):
             try:
                 from bilby.core.prior import PriorDict
@@ -58,7 +58,8 @@ class BilbyPriorNode(FunctionNode, CiteClass):
                     "Bilby package is not installed be default. To use the bilby priors, "
                     "please install it. For example, you can install it with `pip install bilby`."
                 ) from err
-            prior = PriorDict(prior)
+            if not isinstance(prior, PriorDict):
+                prior = PriorDict(prior)
         if len(prior) == 0:
             raise ValueError("The provided prior is empty.")
         self.prior = prior
-- 
2.43.0


From 1a89385b1ce9f10129d44d61a9d27f6d9a9cca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:30 +0000
Subject: [PATCH 80/97] fix: sample bilby priors with constraints in
 BilbyPriorNode

---
 src/lightcurvelynx/math_nodes/bilby_priors.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/bilby_priors.py b/src/lightcurvelynx/math_nodes/bilby_priors.py
index 00db9a2..1545417 100644
--- a/src/lightcurvelynx/math_nodes/bilby_priors.py
+++ b/src/lightcurvelynx/math_nodes/bilby_priors.py
@@ -64,8 +64,10 @@ class BilbyPriorNode(FunctionNode, CiteClass):
             raise ValueError("The provided prior is empty.")
         self.prior = prior
 
-        # Set the outputs to be the names of the parameters in the prior.
-        outputs = [param for param in prior]
+        # Set the outputs to be the names of the parameters in the prior. The constraints
+        # are not sampled themselves.
+        constraints = getattr(prior, "constraint_keys", [])
+        outputs = [param for param in prior if param not in constraints]
         super().__init__(self._non_func, outputs=outputs, **kwargs)
 
     def set_seed(self, new_seed):
-- 
2.43.0


From 42fb5d40d6584a57147c04d6834617062db71793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 81/97] fix: do not download the SFD dust maps again if they
 are already there

---
 src/lightcurvelynx/astro_utils/dustmap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightcurvelynx/astro_utils/dustmap.py b/src/lightcurvelynx/astro_utils/dustmap.py
index 3b84768..050d7b4 100644
--- a/src/lightcurvelynx/astro_utils/dustmap.py
+++ b/src/lightcurvelynx/astro_utils/dustmap.py
@@ -260,6 +260,10 @@ class SFDMap(DustEBV):
         data_dir = Path(data_dir) if data_dir is not None else self._default_map_dir
         logger.debug(f"Loading SFD dust map data from {data_dir}")
 
+        # The files of a previous download are in the extracted archive's subdirectory.
+        if not self._data_files_exist(data_dir) and self._data_files_exist(data_dir / "sfddata-master"):
+            data_dir = data_dir / "sfddata-master"
+
         if not self._data_files_exist(data_dir):
             data_url = ("https://github.com/kbarbary/sfddata/archive/master.tar.gz",)
             logger.info(
-- 
2.43.0


From 888cc9365d5f995a6a37fa7249e8072fda67619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 82/97] fix: sample tables with a single column

---
 src/lightcurvelynx/math_nodes/given_sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/given_sampler.py b/src/lightcurvelynx/math_nodes/given_sampler.py
index 59325b8..fdd36b2 100644
--- a/src/lightcurvelynx/math_nodes/given_sampler.py
+++ b/src/lightcurvelynx/math_nodes/given_sampler.py
@@ -312,6 +312,8 @@ class TableSampler(NumpyRandomFunc):
             else:
                 results.append(attr_values)
 
-        # Save and return the results.
+        # Save and return the results. A single column is its own result.
+        if len(self.outputs) == 1:
+            results = results[0]
         self._save_results(results, graph_state)
         return results
-- 
2.43.0


From 837053d68418d49cfecdd9a086f644d7085cc7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 83/97] fix: compare GraphStates whose vector values differ in
 length

---
 src/lightcurvelynx/graph_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 44220f2..7a9d289 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -138,7 +138,7 @@ class GraphState:
                 try:
                     if not np.allclose(var_value, other_params[var_name]):
                         return False
-                except TypeError:
+                except (TypeError, ValueError):
                     # The values are not numeric (e.g. None or strings).
                     if not np.array_equal(var_value, other_params[var_name]):
                         return False
-- 
2.43.0


From 73b96424d4db0fda9d7b5479fc513eaab6920d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 84/97] fix: map the phases of blueshifted objects to
 observer-frame times

---
 src/lightcurvelynx/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 5721f44..f66c445 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -288,7 +288,7 @@ def compute_single_noise_free_lightcurve(
 
     # Compute the observed-frame times (MJD) if needed.
     redshift = model.get_param(graph_state, "redshift")
-    if redshift is not None and redshift > 0:
+    if redshift is not None:
         times = times * (1 + redshift)
 
     t0 = model.get_param(graph_state, "t0")
-- 
2.43.0


From 9adf02a7c36944d4a333839a71c52070e94121ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 85/97] fix: search the whole sky for radii above 180 degrees

---
 src/lightcurvelynx/obstable/obs_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 273708a..c63e15a 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -560,7 +560,8 @@ class ObsTable:
         cart_query = np.array([x, y, z]).T
 
         # Adjust the angular radius to a cartesian search radius and perform the search.
-        adjusted_radius = 2.0 * np.sin(0.5 * np.radians(radius))
+        # Any radius of 180 degrees or more covers the whole sky.
+        adjusted_radius = np.where(np.asarray(radius) < 180.0, 2.0 * np.sin(0.5 * np.radians(radius)), np.inf)
         inds = self._kd_tree.query_ball_point(cart_query, adjusted_radius)
 
         if t_min is not None or t_max is not None:
-- 
2.43.0


From 546cfef2ecbd198f2eed9e4c25d17a2c19248a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:34 +0000
Subject: [PATCH 86/97] fix: tell GraphStates with scalar and vector values
 apart

---
 src/lightcurvelynx/graph_state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 7a9d289..1e50206 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -135,6 +135,8 @@ class GraphState:
             for var_name, var_value in node_params.items():
                 if var_name not in other_params:
                     return False
+                if np.shape(var_value) != np.shape(other_params[var_name]):
+                    return False
                 try:
                     if not np.allclose(var_value, other_params[var_name]):
                         return False
-- 
2.43.0


From 9f979969c7db9049920050890623bd37341323d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:42 +0000
Subject: [PATCH 87/97] fix: extrapolate redback models beyond their source's
 wavelengths

---
 src/lightcurvelynx/models/redback_models.py | 22 +++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/lightcurvelynx/models/redback_models.py b/src/lightcurvelynx/models/redback_models.py
index 24472f6..858d7f0 100644
--- a/src/lightcurvelynx/models/redback_models.py
+++ b/src/lightcurvelynx/models/redback_models.py
@@ -201,20 +201,26 @@ class RedbackWrapperModel(SEDModel, CiteClass):
             **fn_args,
         )
 
-        # The sncosmo-type source gives an error if the wavelengths are out of bounds, so we
-        # need to use extrapolation if the wavelengths are out of bounds. The function
-        # compute_sed_with_extrapolation() will trim the input wavelengths to be within the model's bounds
-        # and call this function again. So the second call passes this bounds check and does not recurse.
-        if np.any(wavelengths < rb_result.minwave()) or np.any(wavelengths > rb_result.maxwave()):
-            return self.compute_sed_with_extrapolation(times, wavelengths, graph_state, **kwargs)
+        # The sncosmo-type source gives an error if the wavelengths are out of its bounds (which can depend
+        # on the parameters). We query those wavelengths at the bound and extrapolate from there.
+        min_wave, max_wave = rb_result.minwave(), rb_result.maxwave()
+        query_waves = np.clip(wavelengths, min_wave, max_wave)
 
         # Query the model and convert the output to nJy.
-        model_flam = rb_result.get_flux_density(shifted_times, wavelengths)
+        model_flam = rb_result.get_flux_density(shifted_times, query_waves)
         model_fnu = flam_to_fnu(
             model_flam,
-            wavelengths,
+            query_waves,
             wave_unit=uu.AA,
             flam_unit=self._FLAM_UNIT,
             fnu_unit=uu.nJy,
         )
+        for bound, mask in [(min_wave, wavelengths < min_wave), (max_wave, wavelengths > max_wave)]:
+            if np.any(mask):
+                if self.wave_extrapolation is None:
+                    model_fnu[:, mask] = 0.0
+                else:
+                    model_fnu[:, mask] = self.wave_extrapolation(
+                        bound, model_fnu[:, mask][:, 0], wavelengths[mask]
+                    )
         return model_fnu
-- 
2.43.0


From 96e5c08510b9a2e216da4ab633707d155125c6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:56 +0000
Subject: [PATCH 88/97] fix: keep the existing table if ObsTable.write_db()
 fails part way

---
 src/lightcurvelynx/obstable/obs_table.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index c63e15a..2e43ba5 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -397,13 +397,16 @@ class ObsTable:
         """
         if_exists = "replace" if overwrite else "fail"
 
-        con = sqlite3.connect(filename)
-        try:
-            self._table.to_sql(tablename, con, if_exists=if_exists, index=False)
-        except Exception:
-            raise ValueError("Database write failed.") from None
-
-        con.close()
+        # Try the write on a scratch database first, because a write that fails part way
+        # (e.g. on a value that cannot be stored) has already removed the existing table.
+        for target in [":memory:", filename]:
+            con = sqlite3.connect(target)
+            try:
+                self._table.to_sql(tablename, con, if_exists=if_exists, index=False)
+            except Exception:
+                raise ValueError("Database write failed.") from None
+            finally:
+                con.close()
 
     def write_parquet(self, filename, *, overwrite=False):
         """Write out the observation table as a parquet file.
-- 
2.43.0


From 322d534033e430517494d9bf4f6cec93b3661fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:05 +0000
Subject: [PATCH 89/97] fix: plot the points of light curves without filters

---
 src/lightcurvelynx/utils/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/utils/plotting.py b/src/lightcurvelynx/utils/plotting.py
index df6ccb1..4c5ef13 100644
--- a/src/lightcurvelynx/utils/plotting.py
+++ b/src/lightcurvelynx/utils/plotting.py
@@ -66,8 +66,8 @@ def plot_lightcurves(
 
     # Set up a list of filters to display.
     if filters is None:
-        filters = ["none"] * num_pts
-        unique_filters = set(["None"])
+        filters = np.full(num_pts, "None")
+        unique_filters = ["None"]
     elif len(filters) == num_pts:
         filters = np.asarray(filters)
         unique_filters = np.unique(filters)
-- 
2.43.0


From 043f3cf6b22901116c7bd05ecc087ffdf26b01a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:05 +0000
Subject: [PATCH 90/97] fix: plot light curves with more filters than there are
 colors

---
 src/lightcurvelynx/utils/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/plotting.py b/src/lightcurvelynx/utils/plotting.py
index 4c5ef13..7dc2436 100644
--- a/src/lightcurvelynx/utils/plotting.py
+++ b/src/lightcurvelynx/utils/plotting.py
@@ -82,7 +82,7 @@ def plot_lightcurves(
         colormap = {}
         colors = "bgrcmyk"
         for i, f in enumerate(unique_filters):
-            colormap[f] = colors[i]
+            colormap[f] = colors[i % len(colors)]
 
     # Plot the data with one line for each filter.
     for filter in unique_filters:
-- 
2.43.0


From e49fb7927bed1f65f025645be863618f06153ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:05 +0000
Subject: [PATCH 91/97] fix: plot band flux light curves of different lengths

---
 src/lightcurvelynx/utils/plotting.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/utils/plotting.py b/src/lightcurvelynx/utils/plotting.py
index 7dc2436..3ea810a 100644
--- a/src/lightcurvelynx/utils/plotting.py
+++ b/src/lightcurvelynx/utils/plotting.py
@@ -167,9 +167,8 @@ def plot_bandflux_lightcurves(bandflux, times=None, ax=None, figure=None, title=
     if isinstance(bandflux, np.ndarray):
         bandflux = {"lightcurve": bandflux}
     for name, curve in bandflux.items():
-        if times is None:
-            times = np.arange(len(curve))
-        ax.plot(times, curve, marker="o", label=name)
+        curve_times = np.arange(len(curve)) if times is None else times
+        ax.plot(curve_times, curve, marker="o", label=name)
 
     # Set the title and axis labels.
     if title is not None:
-- 
2.43.0


From 9d690e4c4dd213cf644e3c600a69ee8fc5656c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:15 +0000
Subject: [PATCH 92/97] fix: draw all random numbers of the SN Ia example from
 the given generator

---
 src/lightcurvelynx/example_runs/simulate_snia.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/example_runs/simulate_snia.py b/src/lightcurvelynx/example_runs/simulate_snia.py
index 5122ec4..f2183c7 100644
--- a/src/lightcurvelynx/example_runs/simulate_snia.py
+++ b/src/lightcurvelynx/example_runs/simulate_snia.py
@@ -203,12 +203,12 @@ def draw_single_random_sn(
     res["flux_fnu"] = flux_nJy
 
     # Compute the band_flixes over just the given filters.
-    bandfluxes_perfect = source.evaluate_bandfluxes(passbands, times, filters, state)
+    bandfluxes_perfect = source.evaluate_bandfluxes(passbands, times, filters, state, rng_info=rng_info)
     res["bandfluxes_perfect"] = bandfluxes_perfect
 
     bandfluxes_error = opsim.bandflux_error_point_source(bandfluxes_perfect, obs_index)
     res["bandfluxes_error"] = bandfluxes_error
-    res["bandfluxes"] = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=None)
+    res["bandfluxes"] = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=rng_info)
 
     res["state"] = state
 
@@ -274,7 +274,7 @@ def run_snia_end2end(
     passbands = load_and_register_passband(passbands_dir, to_use=["g", "r"])
 
     logger.info(f"Sampling {nsample} states.")
-    sample_states = source.sample_parameters(num_samples=nsample)
+    sample_states = source.sample_parameters(num_samples=nsample, rng_info=rng_info)
 
     res_list = []
     for i in range(0, nsample):
-- 
2.43.0


From cea1b8cd8753e60e26012ba6b464b0f6d21c48c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:54 +0000
Subject: [PATCH 93/97] fix: show the whole footprint and all points when
 plotting a DetectorFootprint

---
 src/lightcurvelynx/astro_utils/detector_footprint.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/detector_footprint.py b/src/lightcurvelynx/astro_utils/detector_footprint.py
index e751949..51a495d 100644
--- a/src/lightcurvelynx/astro_utils/detector_footprint.py
+++ b/src/lightcurvelynx/astro_utils/detector_footprint.py
@@ -291,13 +291,13 @@ class DetectorFootprint:
             ax.legend()
 
             # Adjust the bounding box to include all the points.
-            if xmin < pixel_x.min():
+            if xmin > pixel_x.min():
                 xmin = pixel_x.min() - 2.0
-            if xmax > pixel_x.max():
+            if xmax < pixel_x.max():
                 xmax = pixel_x.max() + 2.0
-            if ymin < pixel_y.min():
+            if ymin > pixel_y.min():
                 ymin = pixel_y.min() - 2.0
-            if ymax > pixel_y.max():
+            if ymax < pixel_y.max():
                 ymax = pixel_y.max() + 2.0
 
         ax.set_title("Detector Footprint")
-- 
2.43.0


From 4136e10e394ebff0d38b9df54eacfc417676db97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:31 +0000
Subject: [PATCH 94/97] fix: accept a filter named both by its full and its
 short name

---
 src/lightcurvelynx/astro_utils/passbands.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 697004e..2fed028 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -112,10 +112,9 @@ class PassbandGroup:
 
             for pb_name in all_bands:
                 pb_obj = self.passbands[pb_name]
-                if pb_name in filters:
-                    filters_remaining.discard(pb_name)
-                elif pb_obj.filter_name in filters:
-                    filters_remaining.discard(pb_obj.filter_name)
+                matches = filters & {pb_name, pb_obj.filter_name}
+                if matches:
+                    filters_remaining -= matches
                 else:
                     del self.passbands[pb_name]
 
-- 
2.43.0


From 6976fcaad24c1e426e52b9a984e0c82a699c8ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:59 +0000
Subject: [PATCH 95/97] fix: order the filters of light-curve templates alike
 in every process

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index a0c223e..f5cc150 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -230,8 +230,7 @@ class LightcurveData:
         if filters is None:
             filters = filter_cols
         else:
-            to_keep = set(filter_cols) & set(filters)
-            filters = list(to_keep)
+            filters = [col for col in filter_cols if col in filters]
         if len(filters) == 0:
             raise ValueError("Light curves table must have at least one filter column.")
 
@@ -798,7 +797,10 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
             self.all_filters.update(lc.filters)
         self.lightcurves = lightcurves
 
-        super().__init__(passbands, filters=list(self.all_filters), **kwargs)
+        # Use a fixed order of the filters. The iteration order of a set of strings (and with it
+        # the names of the baseline nodes) would change from process to process.
+        filters = sorted(self.all_filters)
+        super().__init__(passbands, filters=filters, **kwargs)
 
         all_inds = [i for i in range(len(lightcurves))]
         self._sampler_node = GivenValueSampler(all_inds, weights=weights)
@@ -808,7 +810,7 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
         # Create a parameter to track the baseline values for the selected light curve. The node
         # will automatically fill in the correct baseline value based on the index given by
         # the selected_lightcurve parameter.
-        for fltr in self.all_filters:
+        for fltr in filters:
             baselines = [lc.baseline.get(fltr, 0.0) for lc in lightcurves]
             baseline_selector = GivenValueSelector(baselines, self.selected_lightcurve)
             self.add_parameter(f"baseline_{fltr}", value=baseline_selector, allow_gradient=False)
-- 
2.43.0


From 2349cae2f07fadf8b842e9ded2b4f07149795fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:19 +0000
Subject: [PATCH 96/97] fix: follow overwritten positions and filters of an
 ObsTable

---
 src/lightcurvelynx/obstable/obs_table.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 2e43ba5..f3c3a1a 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -377,6 +377,12 @@ class ObsTable:
             raise ValueError(f"Expected {len(self._table)} values for column {colname}, got {len(values)}.")
         self._table[colname] = values
 
+        # Update the information that is derived from the columns.
+        if colname in ("ra", "dec"):
+            self._build_kd_tree()
+        elif colname == "filter":
+            self.filters = np.unique(self._table["filter"])
+
     def write_db(self, filename, *, tablename="observations", overwrite=False):
         """Write out the observation table as a database to a given SQL table.
 
-- 
2.43.0


From 7eab208537637dc10b7cd1591f2dc31e8a73591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:23 +0000
Subject: [PATCH 97/97] fix: keep array values of single samples in
 GraphState.from_list()

---
 src/lightcurvelynx/graph_state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 1e50206..d599339 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -348,7 +348,9 @@ class GraphState:
             # from each of the GraphStates.
             values_list = []
             for current in graph_states:
-                values_list.append(np.atleast_1d(current[full_name]))
+                # A single sample is one entry, even if its value is an array.
+                value = current[full_name]
+                values_list.append(np.asarray([value]) if current.num_samples == 1 else value)
             values = np.concatenate(values_list)
             result.set(node_name, param_name, values, force_copy=False, fixed=False)
         return result
-- 
2.43.0

