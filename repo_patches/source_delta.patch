From 3b0af42f3c8b6418b18827cd7eac5d90d9cdd0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 001/110] fix: NumpyRandomFunc aligns per-sample arguments with
 the samples of vector-valued draws

---
 src/lightcurvelynx/math_nodes/np_random.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lightcurvelynx/math_nodes/np_random.py b/src/lightcurvelynx/math_nodes/np_random.py
index d81b04c..c859689 100644
--- a/src/lightcurvelynx/math_nodes/np_random.py
+++ b/src/lightcurvelynx/math_nodes/np_random.py
@@ -129,6 +129,15 @@ class NumpyRandomFunc(FunctionNode):
             # If we are generating a single sample use None so it isn't in an array.
             size_param = None
 
+        # Each sample uses its own arguments, so align the (num_samples,) argument arrays with
+        # the first dimension of the output.
+        if len(self.sample_size) > 0 and graph_state.num_samples > 1:
+            arg_shape = (graph_state.num_samples,) + (1,) * len(self.sample_size)
+            args = {
+                key: np.reshape(value, arg_shape) if np.shape(value) == (graph_state.num_samples,) else value
+                for key, value in args.items()
+            }
+
         # Generate the values. Then save and return the results.
         results = func(**args, size=size_param)
         self._save_results(results, graph_state)
-- 
2.43.0


From 030edca8d97acb73b282de470ea768912fdbb440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 002/110] fix: renumber nodes when the graph changed or two
 nodes share a name

---
 src/lightcurvelynx/base_models.py             | 44 +++++++++++++++----
 .../models/multi_object_model.py              | 24 ++++++++--
 2 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/src/lightcurvelynx/base_models.py b/src/lightcurvelynx/base_models.py
index ffcbf26..b939283 100644
--- a/src/lightcurvelynx/base_models.py
+++ b/src/lightcurvelynx/base_models.py
@@ -261,6 +261,38 @@ class ParameterizedNode:
             if setter_info.dependency is not None and setter_info.dependency is not self:
                 setter_info.dependency.set_graph_positions(seen_nodes)
 
+    def _list_nodes(self, seen_nodes=None):
+        """Collect all the nodes in the graph that can be reached from this node.
+
+        Parameters
+        ----------
+        seen_nodes : set, optional
+            The set of nodes that have already been collected. This is updated in place.
+            Caller should not set.
+
+        Returns
+        -------
+        seen_nodes : set
+            The set of all reachable nodes (including this one).
+        """
+        if seen_nodes is None:
+            seen_nodes = set()
+        if self not in seen_nodes:
+            seen_nodes.add(self)
+            for setter_info in self.setters.values():
+                if setter_info.dependency is not None:
+                    setter_info.dependency._list_nodes(seen_nodes)
+        return seen_nodes
+
+    def _update_graph_positions(self):
+        """Number the nodes of the graph if that is needed. This is the case if any node has
+        never been numbered (e.g. it was added after the last sampling) or if two nodes have the
+        same name (e.g. they were numbered as parts of different graphs).
+        """
+        nodes = self._list_nodes()
+        if any(node.node_pos is None for node in nodes) or len({str(node) for node in nodes}) < len(nodes):
+            self.set_graph_positions()
+
     def list_params(self):
         """Return a list of this node's parameterized values.
 
@@ -637,10 +669,8 @@ class ParameterizedNode:
         ValueError
             If the sampling encounters a problem with the order of dependencies.
         """
-        # If the graph structure has never been set, do that now.
-        if self.node_pos is None:
-            nodes = set()
-            self.set_graph_positions(seen_nodes=nodes)
+        # If the graph structure has never been set (or has changed), do that now.
+        self._update_graph_positions()
 
         # Create space for the results and set all the given_args as fixed parameters.
         results = GraphState(num_samples)
@@ -702,10 +732,8 @@ class ParameterizedNode:
         dependency_graph : DependencyGraph
             An object tracking the dependencies between parameters.
         """
-        # If the graph structure has never been set, do that now.
-        if self.node_pos is None:
-            nodes = set()
-            self.set_graph_positions(seen_nodes=nodes)
+        # If the graph structure has never been set (or has changed), do that now.
+        self._update_graph_positions()
 
         # Create space for the results and set all the given_args as fixed parameters.
         dependency_graph = DependencyGraph()
diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 2098781..95b55b8 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -80,6 +80,25 @@ class MultiObjectModel(SEDModel):
         for object in self.objects:
             object.set_graph_positions(seen_nodes=seen_nodes)
 
+    def _list_nodes(self, seen_nodes=None):
+        """Collect all the nodes in the graph that can be reached from this node.
+
+        Parameters
+        ----------
+        seen_nodes : set, optional
+            The set of nodes that have already been collected. This is updated in place.
+            Caller should not set.
+
+        Returns
+        -------
+        seen_nodes : set
+            The set of all reachable nodes (including this one and those of the objects).
+        """
+        seen_nodes = super()._list_nodes(seen_nodes)
+        for object in self.objects:
+            object._list_nodes(seen_nodes)
+        return seen_nodes
+
     def set_apply_redshift(self, apply_redshift):
         """Toggles the apply_redshift setting.
 
@@ -136,9 +155,8 @@ class MultiObjectModel(SEDModel):
         graph_state : GraphState
             An object mapping graph parameters to their values.
         """
-        # If the graph has not been sampled ever, update the node positions for every node.
-        if self.node_pos is None:
-            self.set_graph_positions()
+        # If the graph structure has never been set (or has changed), do that now.
+        self._update_graph_positions()
 
         # We use the same seen_nodes for all sampling calls so each node
         # is sampled at most one time regardless of link structure.
-- 
2.43.0


From 84f452024ff12669f91dc3fa9194111c2e28142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 003/110] fix: GraphState.to_table writes a single sample as
 one row

---
 src/lightcurvelynx/graph_state.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 08e3610..a329b61 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -592,7 +592,9 @@ class GraphState:
         values = Table()
         for node_name, node_params in self.states.items():
             for param_name, param_value in node_params.items():
-                values[self.extended_param_name(node_name, param_name)] = np.array(param_value)
+                # A single sample is one row of the table.
+                column = [param_value] if self.num_samples == 1 else param_value
+                values[self.extended_param_name(node_name, param_name)] = np.array(column)
         return values
 
     def to_dict(self):
-- 
2.43.0


From 65f2a498ae61c41f80b9328ba2338b911adaa988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 004/110] fix: GraphState.from_list keeps vector valued
 parameters of single samples together

---
 src/lightcurvelynx/graph_state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index a329b61..a1cccd5 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -336,7 +336,8 @@ class GraphState:
             # from each of the GraphStates.
             values_list = []
             for current in graph_states:
-                values_list.append(np.atleast_1d(current[full_name]))
+                value = current[full_name]
+                values_list.append(np.asarray([value] if current.num_samples == 1 else value))
             values = np.concatenate(values_list)
             result.set(node_name, param_name, values, force_copy=False, fixed=False)
         return result
-- 
2.43.0


From 81cfc94ebe103b50376fda8f61885cf659615462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 005/110] fix: GraphState equality handles text, missing
 values, different shapes and other types

---
 src/lightcurvelynx/graph_state.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index a1cccd5..c5f0532 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -116,7 +116,20 @@ class GraphState:
                 str_lines.append(f"    {var_name}: {value}")
         return "\n".join(str_lines)
 
+    @staticmethod
+    def _values_equal(value1, value2):
+        """Check whether two parameter values match (numerically close or equal)."""
+        value1 = np.asarray(value1)
+        value2 = np.asarray(value2)
+        if value1.shape != value2.shape:
+            return False
+        if value1.dtype.kind in "biufc" and value2.dtype.kind in "biufc":
+            return np.allclose(value1, value2, equal_nan=True)
+        return bool(np.all(value1 == value2))
+
     def __eq__(self, other):
+        if not isinstance(other, GraphState):
+            return NotImplemented
         if self.num_samples != other.num_samples:
             return False
         if len(self.states) != len(other.states):
@@ -135,7 +148,7 @@ class GraphState:
             for var_name, var_value in node_params.items():
                 if var_name not in other_params:
                     return False
-                if not np.allclose(var_value, other_params[var_name]):
+                if not self._values_equal(var_value, other_params[var_name]):
                     return False
 
         # Finally check that the 'fixed' dictionary is the same.
-- 
2.43.0


From b6cf2d0c73df09de464fae860446e2cee7d852aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 006/110] fix: GraphState look-up of an unknown name in a
 one-node record raises a KeyError

---
 src/lightcurvelynx/graph_state.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index c5f0532..a2fd64d 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -103,10 +103,8 @@ class GraphState:
         elif len(self.states) == 1:
             # Special case when we have only a single node stored in the graph state.
             node_state = list(self.states.values())[0]
-            if key in node_state:
-                return True
-        else:
-            return False
+            return key in node_state
+        return False
 
     def __str__(self):
         str_lines = []
@@ -183,8 +181,7 @@ class GraphState:
             node_state = list(self.states.values())[0]
             if key in node_state:
                 return node_state[key]
-        else:
-            raise KeyError(f"Unknown GraphState key: {key}")
+        raise KeyError(f"Unknown GraphState key: {key}")
 
     def copy(self):
         """Create a deep copy of the GraphState.
-- 
2.43.0


From 602a1f383e3cc036829cc0d21c213477f2c7a157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 007/110] fix: GraphState copies are independent for vector
 values of a single sample

---
 src/lightcurvelynx/graph_state.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index a2fd64d..c1dcb6b 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -196,10 +196,10 @@ class GraphState:
         for node_name, node_vars in self.states.items():
             new_state.states[node_name] = {}
             for var_name, var_value in node_vars.items():
-                if self.num_samples == 1:
-                    new_state.states[node_name][var_name] = var_value
-                else:
+                if isinstance(var_value, np.ndarray | list):
                     new_state.states[node_name][var_name] = var_value.copy()
+                else:
+                    new_state.states[node_name][var_name] = var_value
         for node_name, fixed_vars in self.fixed_vars.items():
             new_state.fixed_vars[node_name] = fixed_vars.copy()
         return new_state
@@ -432,6 +432,8 @@ class GraphState:
         # Set the actual values.
         if self.num_samples == 1:
             # If this GraphState holds only a single sample, set it from the given value.
+            if force_copy and isinstance(value, np.ndarray | list):
+                value = value.copy()
             self.states[node_name][var_name] = value
         elif np.isscalar(value):
             # If the value is a scalar, expand it to the correct number of samples.
-- 
2.43.0


From 48a544f3b5e99e7bdadd9dd4096ff35450df85f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 008/110] fix: single samples extracted from a GraphState can
 be updated and compared

---
 src/lightcurvelynx/graph_state.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index c1dcb6b..e729811 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -513,6 +513,7 @@ class GraphState:
         new_state.num_parameters = self.num_parameters
         for node_name in self.states:
             new_state.states[node_name] = {}
+            new_state.fixed_vars[node_name] = set()
             for var_name, value in self.states[node_name].items():
                 if self.num_samples == 1:
                     new_state.states[node_name][var_name] = value
-- 
2.43.0


From 5062517e0dc2050f2877e33b4fbd19b5d9dbee2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 009/110] fix: GraphState.update repeats vectors and missing
 values of a single sample

---
 src/lightcurvelynx/graph_state.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index e729811..34b164d 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -485,6 +485,12 @@ class GraphState:
                     f"Received {self.num_samples} and {inputs.num_samples}."
                 )
             new_states = inputs.states
+            if inputs.num_samples < self.num_samples:
+                # Repeat the single sample's values, including vectors and missing values.
+                new_states = {
+                    node_name: {name: np.array([value] * self.num_samples) for name, value in node_vars.items()}
+                    for node_name, node_vars in new_states.items()
+                }
         else:
             new_states = inputs
 
-- 
2.43.0


From 12121e8e8e990b1e5d2826f41cd8e27cd8937b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 010/110] fix: GraphState.from_list of one single sample keeps
 plain values

---
 src/lightcurvelynx/graph_state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 34b164d..51d5dae 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -349,6 +349,8 @@ class GraphState:
                 value = current[full_name]
                 values_list.append(np.asarray([value] if current.num_samples == 1 else value))
             values = np.concatenate(values_list)
+            if total_samples == 1:
+                values = values[0]
             result.set(node_name, param_name, values, force_copy=False, fixed=False)
         return result
 
-- 
2.43.0


From 7504c742f7549e812acfa443c32b4f8c04675956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 011/110] fix: composite models sample and report the
 parameters of nested composites

---
 .../models/multi_object_model.py              | 49 ++++++++-----------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 95b55b8..f90a75e 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -6,7 +6,6 @@ only one object is selected at random for each flux calculation.
 
 import numpy as np
 
-from lightcurvelynx.graph_state import GraphState
 from lightcurvelynx.math_nodes.given_sampler import GivenValueSampler
 from lightcurvelynx.models.physical_model import BandfluxModel, BasePhysicalModel, SEDModel
 
@@ -131,45 +130,39 @@ class MultiObjectModel(SEDModel):
                     self.add_parameter(param_name, setter, allow_gradient=False)
             self.obs_frame_effects.append(effect)
 
-    def sample_parameters(self, given_args=None, num_samples=1, rng_info=None):
-        """Sample the model's underlying parameters if they are provided by a function
-        or ParameterizedModel.
+    def _sample_helper(self, graph_state, seen_nodes, rng_info=None):
+        """Internal recursive function to sample the model's underlying parameters (and those
+        of all its objects) if they are provided by a function or ParameterizedModel.
 
         Parameters
         ----------
-        given_args : dict, optional
-            A dictionary representing the given arguments for this sample run.
-            This can be used as the JAX PyTree for differentiation.
-        num_samples : int
-            A count of the number of samples to compute.
-            Default: 1
+        graph_state : GraphState
+            An object mapping graph parameters to their values. This object is modified
+            in place as it is sampled.
+        seen_nodes : dict
+            A dictionary mapping nodes seen during this sampling run to their ID.
+            Used to avoid sampling nodes multiple times and to validity check the graph.
         rng_info : numpy.random._generator.Generator, optional
             A given numpy random number generator to use for this computation. If not
             provided, the function uses the node's random number generator.
-        **kwargs : dict, optional
-            All the keyword arguments, including the values needed to sample
-            parameters.
-
-        Returns
-        -------
-        graph_state : GraphState
-            An object mapping graph parameters to their values.
         """
-        # If the graph structure has never been set (or has changed), do that now.
-        self._update_graph_positions()
-
         # We use the same seen_nodes for all sampling calls so each node
         # is sampled at most one time regardless of link structure.
-        graph_state = GraphState(num_samples)
-        if given_args is not None:
-            graph_state.update(given_args, all_fixed=True)
-
-        seen_nodes = {}
         for object in self.objects:
             object._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
-        self._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
+        super()._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
 
-        return graph_state
+    def _dependency_graph_helper(self, dependency_graph):
+        """Internal recursive function to add this node and all its objects to the dependency graph.
+
+        Parameters
+        ----------
+        dependency_graph : DependencyGraph
+            An object tracking the dependencies between parameters. Modified in place.
+        """
+        super()._dependency_graph_helper(dependency_graph)
+        for object in self.objects:
+            object._dependency_graph_helper(dependency_graph)
 
     def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
         """Evaluate the model and apply the effects for a single, given graph state.
-- 
2.43.0


From 43401bc47c327acea9154729ee1259f5e40208d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 012/110] fix: set_apply_redshift of a composite reaches its
 SED models

---
 src/lightcurvelynx/models/multi_object_model.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index f90a75e..48f3d1a 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -106,9 +106,8 @@ class MultiObjectModel(SEDModel):
         apply_redshift : bool
             The new value for apply_redshift.
         """
-        for idx, object in enumerate(self.objects):
-            if self._is_bandflux[idx]:
-                object.set_apply_redshift(apply_redshift)
+        for object in self.objects:
+            object.set_apply_redshift(apply_redshift)
 
     def add_effect(self, effect):
         """Add an effect to each of the submodels.
-- 
2.43.0


From d0e1cada337741df3f3a90f9f866fd45a1709e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 013/110] fix: wavelength limits of a RandomMultiObjectModel
 use the name of the selected object

---
 src/lightcurvelynx/models/multi_object_model.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 48f3d1a..5d2ebea 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -468,8 +468,10 @@ class RandomMultiObjectModel(MultiObjectModel):
             The minimum wavelength of the model (in angstroms) or None
             if the model does not have a defined minimum wavelength.
         """
-        idx = self.get_param(graph_state, "selected_object")
-        return self.objects[idx].minwave(graph_state=graph_state)
+        selected = self.get_param(graph_state, "selected_object")
+        # The selected object is given by its name (or its index).
+        object = self.object_map[selected] if selected in self.object_map else self.objects[selected]
+        return object.minwave(graph_state=graph_state)
 
     def maxwave(self, graph_state=None):
         """Get the maximum wavelength of the model.
@@ -486,8 +488,10 @@ class RandomMultiObjectModel(MultiObjectModel):
             The maximum wavelength of the model (in angstroms) or None
             if the model does not have a defined maximum wavelength.
         """
-        idx = self.get_param(graph_state, "selected_object")
-        return self.objects[idx].maxwave(graph_state=graph_state)
+        selected = self.get_param(graph_state, "selected_object")
+        # The selected object is given by its name (or its index).
+        object = self.object_map[selected] if selected in self.object_map else self.objects[selected]
+        return object.maxwave(graph_state=graph_state)
 
     def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
         """Evaluate the model and apply the effects for a single, given graph state.
-- 
2.43.0


From ca456a2addf1f8ccca95b0a187d9b68409454a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 014/110] fix: RandomMultiObjectModel keeps unlabelled parts of
 the same type apart

---
 src/lightcurvelynx/models/multi_object_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 5d2ebea..b75922b 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -448,7 +448,13 @@ class RandomMultiObjectModel(MultiObjectModel):
         super().__init__(objects, **kwargs)
 
         # Create a parameter to indicate which object was selected.
-        object_names = object_names or [src.node_string for src in objects]
+        if object_names is None:
+            object_names = [src.node_string for src in objects]
+            if len(set(object_names)) < len(object_names):
+                # Unlabeled objects of the same type share a name, so number them.
+                object_names = [f"{name}_{idx}" for idx, name in enumerate(object_names)]
+        elif len(object_names) != len(objects) or len(set(object_names)) < len(object_names):
+            raise ValueError("Object names must be unique and match the number of objects.")
         self.object_map = {name: src for name, src in zip(object_names, objects, strict=False)}
         self._sampler_node = GivenValueSampler(object_names, weights=weights)
         self.add_parameter("selected_object", value=self._sampler_node, allow_gradient=False)
-- 
2.43.0


From 247cb334d0de49c62b7b0e8eca8f4a7456e37ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 015/110] fix: BasicMathNode refuses calls of anything but a
 supported name and several statements

---
 src/lightcurvelynx/math_nodes/basic_math_node.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/basic_math_node.py b/src/lightcurvelynx/math_nodes/basic_math_node.py
index 79405e8..c955489 100644
--- a/src/lightcurvelynx/math_nodes/basic_math_node.py
+++ b/src/lightcurvelynx/math_nodes/basic_math_node.py
@@ -193,6 +193,8 @@ class BasicMathNode(FunctionNode):
             The root node of the parsed syntax tree.
         """
         tree = ast.parse(self.expression)
+        if len(tree.body) != 1:
+            raise ValueError(f"Expected a single expression, but received '{self.expression}'")
 
         # Walk the tree and confirm that it only contains the basic math.
         for node in ast.walk(tree):
@@ -201,8 +203,8 @@ class BasicMathNode(FunctionNode):
                 continue
             elif isinstance(node, ast.Call):
                 # Check that function calls are only using items on the allow list.
-                if node.func.id not in self._math_map:
-                    raise ValueError(f"Unsupported function {node.func.id}")
+                if not isinstance(node.func, ast.Name) or node.func.id not in self._math_map:
+                    raise ValueError(f"Unsupported function {ast.unparse(node.func)}")
             elif isinstance(node, ast.Name):
                 if node.id in kwargs:
                     # This is a user supplied variable.
-- 
2.43.0


From c427b63eb11536703f666c3f82b5b218cf37e442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 016/110] fix: max and min in a BasicMathNode are evaluated
 element by element

---
 .../math_nodes/basic_math_node.py             | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/basic_math_node.py b/src/lightcurvelynx/math_nodes/basic_math_node.py
index c955489..1389179 100644
--- a/src/lightcurvelynx/math_nodes/basic_math_node.py
+++ b/src/lightcurvelynx/math_nodes/basic_math_node.py
@@ -9,6 +9,7 @@ import ast
 # Disable unused import because we need all of these imported
 # so they can be used during evaluation of the node.
 import math  # noqa: F401
+from functools import reduce
 
 import jax.numpy as jnp  # noqa: F401
 import numpy as np  # noqa: F401
@@ -16,6 +17,26 @@ import numpy as np  # noqa: F401
 from lightcurvelynx.base_models import FunctionNode
 
 
+def _np_max(*args):
+    """The element-wise maximum of the arguments."""
+    return reduce(np.maximum, args)
+
+
+def _np_min(*args):
+    """The element-wise minimum of the arguments."""
+    return reduce(np.minimum, args)
+
+
+def _jnp_max(*args):
+    """The element-wise maximum of the arguments."""
+    return reduce(jnp.maximum, args)
+
+
+def _jnp_min(*args):
+    """The element-wise minimum of the arguments."""
+    return reduce(jnp.minimum, args)
+
+
 class BasicMathNode(FunctionNode):
     """A node that evaluates basic mathematical functions.
 
@@ -98,8 +119,8 @@ class BasicMathNode(FunctionNode):
         "log": ["math.log", "np.log", "jnp.log"],
         "log10": ["math.log10", "np.log10", "jnp.log10"],
         "log2": ["math.log2", "np.log2", "jnp.log2"],
-        "max": ["max", "np.max", "jnp.max"],  # Special handling for math
-        "min": ["min", "np.min", "jnp.min"],  # Special handling for math
+        "max": ["max", "_np_max", "_jnp_max"],  # Special handling for numpy and jax
+        "min": ["min", "_np_min", "_jnp_min"],  # Special handling for numpy and jax
         "pi": ["math.pi", "np.pi", "jnp.pi"],
         "pow": ["math.pow", "np.power", "jnp.power"],  # Special handling for numpy
         "power": ["math.pow", "np.power", "jnp.power"],  # Special handling for math
-- 
2.43.0


From ff493891961ef218fecbabdb969fe8ce09983c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 017/110] fix: GraphState.set expands zero-dimensional arrays
 and None like other scalars

---
 src/lightcurvelynx/graph_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/graph_state.py b/src/lightcurvelynx/graph_state.py
index 51d5dae..69225dd 100644
--- a/src/lightcurvelynx/graph_state.py
+++ b/src/lightcurvelynx/graph_state.py
@@ -437,7 +437,7 @@ class GraphState:
             if force_copy and isinstance(value, np.ndarray | list):
                 value = value.copy()
             self.states[node_name][var_name] = value
-        elif np.isscalar(value):
+        elif np.ndim(value) == 0:
             # If the value is a scalar, expand it to the correct number of samples.
             self.states[node_name][var_name] = np.full(self.num_samples, value)
         elif len(value) != self.num_samples:
-- 
2.43.0


From 39f2aaaa8b67831e9719dcde09a402e4787b6ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 018/110] fix: GivenValueSampler accepts integer weights and
 leaves the caller's weights unchanged

---
 src/lightcurvelynx/math_nodes/given_sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/given_sampler.py b/src/lightcurvelynx/math_nodes/given_sampler.py
index 8b7abba..59325b8 100644
--- a/src/lightcurvelynx/math_nodes/given_sampler.py
+++ b/src/lightcurvelynx/math_nodes/given_sampler.py
@@ -150,10 +150,10 @@ class GivenValueSampler(NumpyRandomFunc):
 
         # Compute the normalized weights for each value.
         if weights is not None:
-            self._weights = np.asarray(weights)
+            self._weights = np.asarray(weights, dtype=float)
             if len(self._weights) != self._num_values:
                 raise ValueError("Weights must match the number of values provided.")
-            self._weights /= np.sum(self._weights)
+            self._weights = self._weights / np.sum(self._weights)
         else:
             self._weights = None
 
-- 
2.43.0


From 3f887b4daaf5b01760e7072ba38d618aef2dae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:45 +0000
Subject: [PATCH 019/110] fix: TableSampler supports tables with one column

---
 src/lightcurvelynx/math_nodes/given_sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lightcurvelynx/math_nodes/given_sampler.py b/src/lightcurvelynx/math_nodes/given_sampler.py
index 59325b8..bd225c0 100644
--- a/src/lightcurvelynx/math_nodes/given_sampler.py
+++ b/src/lightcurvelynx/math_nodes/given_sampler.py
@@ -313,5 +313,8 @@ class TableSampler(NumpyRandomFunc):
                 results.append(attr_values)
 
         # Save and return the results.
+        if len(self.outputs) == 1:
+            # A single output is saved directly instead of as a list of outputs.
+            results = results[0]
         self._save_results(results, graph_state)
         return results
-- 
2.43.0


From 203dc9d37a748eebacbe764c63fe65a24a4f63c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 020/110] fix: DistributionSampler follows the given density
 and uses the caller's generator

---
 src/lightcurvelynx/math_nodes/distribution_sampler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/distribution_sampler.py b/src/lightcurvelynx/math_nodes/distribution_sampler.py
index 9c27e6c..572d3bf 100644
--- a/src/lightcurvelynx/math_nodes/distribution_sampler.py
+++ b/src/lightcurvelynx/math_nodes/distribution_sampler.py
@@ -6,6 +6,7 @@ an interpolation of the inverse CDF function.
 from os import urandom
 
 import numpy as np
+from scipy.integrate import cumulative_trapezoid
 from scipy.interpolate import interp1d
 
 from lightcurvelynx.base_models import FunctionNode
@@ -46,6 +47,8 @@ class DistributionSampler(FunctionNode):
         self._rng = np.random.default_rng(seed=seed)
 
         # Validate the inputs.
+        x = np.asarray(x, dtype=float)
+        y = np.asarray(y, dtype=float)
         if len(x) != len(y):
             raise ValueError(f"Length of x ({len(x)}) and y ({len(y)}) must be equal.")
         if np.any(y < 0):
@@ -53,7 +56,7 @@ class DistributionSampler(FunctionNode):
 
         # Create the CDF values (and normalize it to 1) and then create an interpolation
         # of the inverse CDF function.
-        cdf_samples = np.cumsum(y)
+        cdf_samples = cumulative_trapezoid(y, x, initial=0.0)
         cdf_samples /= cdf_samples[-1]
         self._inv_cdf = interp1d(cdf_samples, x, kind=kind, fill_value=0.0)
 
@@ -94,7 +97,8 @@ class DistributionSampler(FunctionNode):
 
         # Draw samples of the CDF [0, 1] and then use the inverse CDF spline to map those
         # back to the corresponding x values.
-        cdf_points = self._rng.random(num_samples)
+        rng = rng_info if rng_info is not None else self._rng
+        cdf_points = rng.random(num_samples)
         x_samples = self._inv_cdf(cdf_points)
         self._save_results(x_samples, graph_state)
         return x_samples
-- 
2.43.0


From ae48c6da1a1dcd70d647c69629997bab1d8096d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 021/110] fix: SNCoordGivenPhysicalSep draws position angles
 from the node's or the caller's generator

---
 src/lightcurvelynx/astro_utils/snia_utils.py | 48 ++++++++++++++++++--
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/snia_utils.py b/src/lightcurvelynx/astro_utils/snia_utils.py
index 3f22571..cbec77c 100644
--- a/src/lightcurvelynx/astro_utils/snia_utils.py
+++ b/src/lightcurvelynx/astro_utils/snia_utils.py
@@ -343,15 +343,20 @@ class SNCoordGivenPhysicalSep(FunctionNode):
         The Hubble constant.
     Omega_m : constant
         The matter density Omega_m.
+    seed : int, optional
+        The seed of this node's random number generator.
     **kwargs : dict, optional
         Any additional keyword arguments.
     """
 
-    def __init__(self, host_ra, host_dec, physical_sep_kpc, redshift, H0=73.0, Omega_m=0.3, **kwargs):
+    def __init__(
+        self, host_ra, host_dec, physical_sep_kpc, redshift, H0=73.0, Omega_m=0.3, seed=None, **kwargs
+    ):
         # Create the cosmology once for this node.
         if not isinstance(H0, float) or not isinstance(Omega_m, float):
             raise ValueError("H0 and Omega_m must be constants.")
         self.cosmo = FlatLambdaCDM(H0=H0, Om0=Omega_m)
+        self._rng = np.random.default_rng(seed)
 
         # Call the super class's constructor with the needed information.
         super().__init__(
@@ -386,7 +391,41 @@ class SNCoordGivenPhysicalSep(FunctionNode):
 
         return angular_sep_rad
 
-    def _sn_coord(self, host_ra, host_dec, physical_sep_kpc, redshift):
+    def set_seed(self, new_seed):
+        """Update the random number generator's seed to a given value.
+
+        Parameters
+        ----------
+        new_seed : int
+            The given seed
+        """
+        self._rng = np.random.default_rng(seed=new_seed)
+
+    def compute(self, graph_state, rng_info=None, **kwargs):
+        """Sample the supernova coordinates.
+
+        Parameters
+        ----------
+        graph_state : GraphState
+            An object mapping graph parameters to their values. This object is modified
+            in place as it is sampled.
+        rng_info : numpy.random._generator.Generator, optional
+            A given numpy random number generator to use for this computation. If not
+            provided, the function uses the node's random number generator.
+        **kwargs : dict, optional
+            Additional function arguments.
+
+        Returns
+        -------
+        results : tuple
+            The RA and DEC values (in degrees).
+        """
+        rng = rng_info if rng_info is not None else self._rng
+        results = self._sn_coord(**self._build_inputs(graph_state, **kwargs), rng=rng)
+        self._save_results(results, graph_state)
+        return results
+
+    def _sn_coord(self, host_ra, host_dec, physical_sep_kpc, redshift, rng=None):
         """
         Function to generate SN coordinates given the host coordinates and angular separation.
 
@@ -400,6 +439,8 @@ class SNCoordGivenPhysicalSep(FunctionNode):
             The physical host-sn separation(s) in kpc.
         redshift : float or numpy.ndarray
             The redshift to convert physical separation to angular separation.
+        rng : numpy.random._generator.Generator, optional
+            The random number generator to use. Defaults to this node's own generator.
 
         Returns
         -------
@@ -411,7 +452,8 @@ class SNCoordGivenPhysicalSep(FunctionNode):
 
         self.angular_sep_rad = self._host_sn_angular_separation(physical_sep_kpc, redshift)
         center = SkyCoord(host_ra * u.deg, host_dec * u.deg, frame="icrs")
-        rand_pa = 2 * np.pi * np.random.random(center.size) * u.rad  # random position angle
+        rng = rng if rng is not None else self._rng
+        rand_pa = 2 * np.pi * rng.random(center.size) * u.rad  # random position angle
 
         sn_coord = center.directional_offset_by(rand_pa, self.angular_sep_rad)
         ra = sn_coord.ra.deg
-- 
2.43.0


From e2dd40bb9d189ecb2229d9e0186c453050180f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 022/110] fix: AGN evaluation uses the caller's generator

---
 src/lightcurvelynx/models/agn.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/agn.py b/src/lightcurvelynx/models/agn.py
index 8ad18ba..cb0ba9f 100644
--- a/src/lightcurvelynx/models/agn.py
+++ b/src/lightcurvelynx/models/agn.py
@@ -478,7 +478,14 @@ class AGN(SEDModel):
         G = constants.G.cgs.value
         return 2 ** (3 / 4) * (3 / 7) ** (7 / 4) * (G * M * Mdot / (np.pi * sigma_sb * r_in**3)) ** (1 / 4)
 
-    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
+    def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
+        """Evaluate the model and apply the effects for a single, given graph state.
+        See SEDModel for the parameters. The random number generator is also used
+        for the damped random walk (as compute_sed's rng argument).
+        """
+        return super()._evaluate_single(times, wavelengths, state, rng_info=rng_info, rng=rng_info, **kwargs)
+
+    def compute_sed(self, times, wavelengths, graph_state, rng=None, **kwargs):
         """Draw effect-free observations for this object.
 
         Parameters
@@ -489,6 +496,9 @@ class AGN(SEDModel):
             A length N array of wavelengths (in angstroms).
         graph_state : `GraphState`
             An object mapping graph parameters to their values.
+        rng : `numpy.random._generator.Generator`, optional
+            The random number generator for the damped random walk. If not provided,
+            the model's own generator is used.
         **kwargs : `dict`, optional
             Any additional keyword arguments.
 
@@ -523,7 +533,7 @@ class AGN(SEDModel):
             tau_v,
             sf_inf,
             params["t0"],
-            rng=self._rng,
+            rng=rng if rng is not None else self._rng,
         )
 
         flux_density = 10 ** (-0.4 * delta_m) * fnu_average
-- 
2.43.0


From 25db137b465f685100be512e14ecf2b7d376a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 023/110] fix: compute_sed gets the caller's arguments when
 extrapolating too

---
 src/lightcurvelynx/models/physical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 2754ca7..1a1affb 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -371,7 +371,7 @@ class SEDModel(BasePhysicalModel):
 
         # Pad the wavelengths with the min and max values and compute the flux at those points.
         query_waves = np.concatenate(([min_valid_wave], wavelengths[in_range], [max_valid_wave]))
-        computed_flux = self.compute_sed(times, query_waves, graph_state)
+        computed_flux = self.compute_sed(times, query_waves, graph_state, **kwargs)
 
         # Initially zero pad the full array until we fill in the values with extrapolation.
         # We drop the first and last flux values since they were added to get the flux at the
-- 
2.43.0


From ef8a30298f8d26a3b1da58d2ce61dd8cae57bf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 024/110] fix: simulate_lightcurves passes its generator to the
 model and its effects

---
 src/lightcurvelynx/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 37b39bb..7689af6 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -193,7 +193,7 @@ def simulate_lightcurves(
 
             # Compute the bandfluxes and errors over just the given filters.
             bandfluxes_perfect = model.evaluate_bandfluxes(
-                passbands[survey_idx], obs_times, obs_filters, state
+                passbands[survey_idx], obs_times, obs_filters, state, rng_info=rng
             )
             bandfluxes_error = obstable[survey_idx].bandflux_error_point_source(bandfluxes_perfect, obs_index)
             bandfluxes = apply_noise(bandfluxes_perfect, bandfluxes_error, rng=rng)
-- 
2.43.0


From d63dfdf6ed7e82ce7364675f6f5130d3b12c18fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 025/110] fix: objects without observations are evaluated with
 empty arrays

---
 src/lightcurvelynx/simulate.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 7689af6..f3312e8 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -176,20 +176,17 @@ def simulate_lightcurves(
 
         for survey_idx in range(num_surveys):
             # Find the indices and times where the current model is seen.
-            obs_index = np.asarray(all_obs_matches[survey_idx][idx])
-            if len(obs_index) == 0:
-                obs_times = []
-                obs_filters = []
-            else:
-                obs_times = all_times[survey_idx][obs_index]
-
-                # Filter to only the "interesting" indices / times for this object.
-                if apply_obs_mask:
-                    obs_mask = model.mask_by_time(obs_times, state)
-                    obs_index = obs_index[obs_mask]
-                    obs_times = obs_times[obs_mask]
-                # Extract the filters for this observation.
-                obs_filters = all_filters[survey_idx][obs_index]
+            obs_index = np.asarray(all_obs_matches[survey_idx][idx], dtype=int)
+            obs_times = all_times[survey_idx][obs_index]
+
+            # Filter to only the "interesting" indices / times for this object.
+            if apply_obs_mask and len(obs_index) > 0:
+                obs_mask = model.mask_by_time(obs_times, state)
+                obs_index = obs_index[obs_mask]
+                obs_times = obs_times[obs_mask]
+
+            # Extract the filters for this observation.
+            obs_filters = all_filters[survey_idx][obs_index]
 
             # Compute the bandfluxes and errors over just the given filters.
             bandfluxes_perfect = model.evaluate_bandfluxes(
-- 
2.43.0


From 85373469b6559388dc007ce04348f236d6578dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 026/110] fix: a conditional PZFlowNode can draw a single
 sample

---
 src/lightcurvelynx/astro_utils/pzflow_node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/pzflow_node.py b/src/lightcurvelynx/astro_utils/pzflow_node.py
index 58e2ced..ce02816 100644
--- a/src/lightcurvelynx/astro_utils/pzflow_node.py
+++ b/src/lightcurvelynx/astro_utils/pzflow_node.py
@@ -101,7 +101,7 @@ class PZFlowNode(FunctionNode, CiteClass):
             all_params = self.get_local_params(graph_state)
             input_params = {}
             for col in self.conditional_cols:
-                input_params[col] = all_params[col]
+                input_params[col] = np.atleast_1d(all_params[col])
             input_df = pd.DataFrame(input_params)
 
             samples = self.flow.sample(1, conditions=input_df, seed=seed)
-- 
2.43.0


From 71bb74fef0195158e18ffaa999d4ecb226e3e76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:36 +0000
Subject: [PATCH 027/110] fix: ObsTableRADECSampler offsets positions along the
 sphere

---
 .../math_nodes/ra_dec_sampler.py              | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
index 8fd248e..2316db0 100644
--- a/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
+++ b/src/lightcurvelynx/math_nodes/ra_dec_sampler.py
@@ -2,7 +2,9 @@
 
 from pathlib import Path
 
+import astropy.units as u
 import numpy as np
+from astropy.coordinates import SkyCoord
 from cdshealpix.nested import healpix_to_skycoord
 from citation_compass import CiteClass
 from mocpy import MOC
@@ -136,14 +138,22 @@ class ObsTableRADECSampler(TableSampler):
             # NOT produce a uniform sampling. TODO: Make this uniform sampling.
             rng = rng_info if rng_info is not None else self._rng
 
-            # Choose a uniform circle around the center point. Not that this is not uniform over
-            # the final RA, dec because it does not account for compression in dec around the polls.
+            # Choose a uniform circle around the center point. Note that this is only
+            # approximately uniform on the sphere for large radii.
             offset_amt = self.radius * np.sqrt(rng.uniform(0.0, 1.0, size=graph_state.num_samples))
             offset_ang = 2.0 * np.pi * rng.uniform(0.0, 1.0, size=graph_state.num_samples)
 
-            # Add the offsets to RA and dec. Keep time unchanged.
-            results[0] += offset_amt * np.cos(offset_ang)  # RA
-            results[1] += offset_amt * np.sin(offset_ang)  # dec
+            # Move along the sphere so the declination stays valid near the poles. The RA is kept
+            # within 180 degrees of the center's RA. The time is unchanged.
+            center_ra = np.atleast_1d(results[0])
+            center = SkyCoord(ra=center_ra, dec=np.atleast_1d(results[1]), unit="deg")
+            offset = center.directional_offset_by(offset_ang * u.rad, offset_amt * u.deg)
+            ra = center_ra + (offset.ra - center.ra).wrap_at(180.0 * u.deg).deg
+            dec = offset.dec.deg
+
+            # If we are generating a single sample, return floats.
+            results[0] = ra[0] if graph_state.num_samples == 1 else ra
+            results[1] = dec[0] if graph_state.num_samples == 1 else dec
 
             # Resave the results (overwriting the previous results)
             self._save_results(results, graph_state)
-- 
2.43.0


From a29ff752f0e4505f7d96b57562b54f97eabed993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 028/110] fix: range_search applies scalar time limits to every
 query

---
 src/lightcurvelynx/obstable/obs_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index d0c658d..05514dd 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -566,14 +566,14 @@ class ObsTable:
             if t_min is None:
                 t_min = np.full(num_queries, -np.inf)
             else:
-                t_min = np.atleast_1d(t_min)
+                t_min = np.full(num_queries, t_min) if np.ndim(t_min) == 0 else np.asarray(t_min)
             if len(t_min) != num_queries:
                 raise ValueError(f"t_min must be a scalar or an array of length {num_queries}.")
 
             if t_max is None:
                 t_max = np.full(num_queries, np.inf)
             else:
-                t_max = np.atleast_1d(t_max)
+                t_max = np.full(num_queries, t_max) if np.ndim(t_max) == 0 else np.asarray(t_max)
             if len(t_max) != num_queries:
                 raise ValueError(f"t_max must be a scalar or an array of length {num_queries}.")
 
-- 
2.43.0


From 6e247d6b98497afa7782099a11c9537e02bc2344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 029/110] fix: is_observed agrees with range_search on what a
 single query is

---
 src/lightcurvelynx/obstable/obs_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 05514dd..aa8ef1c 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -498,7 +498,7 @@ class ObsTable:
             of query points.
         """
         inds = self.range_search(query_ra, query_dec, radius=radius, t_min=t_min, t_max=t_max)
-        if np.isscalar(query_ra):
+        if np.isscalar(query_ra) and np.isscalar(query_dec):
             return len(inds) > 0
         return [len(entry) > 0 for entry in inds]
 
-- 
2.43.0


From a5fa7659a9ee6f78b553843454df8f18aef1e719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 030/110] fix: get_observations looks rows up by position

---
 src/lightcurvelynx/obstable/obs_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index aa8ef1c..adfbd59 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -654,7 +654,7 @@ class ObsTable:
             # by using the class accessor (__getitem__), instead of the table one.
             if col not in self:
                 raise KeyError(f"Unrecognized column name {col}")
-            results[col] = self[col][neighbors].to_numpy()
+            results[col] = self[col].to_numpy()[neighbors]
         return results
 
     def bandflux_error_point_source(self, bandflux, index):
-- 
2.43.0


From 7b7d9e9048ae4e86ab89632add56ce21efd15a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 031/110] fix: filter_rows accepts an empty list of rows

---
 src/lightcurvelynx/obstable/obs_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index adfbd59..09cc1ea 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -454,6 +454,8 @@ class ObsTable:
         """
         # Check if we are dealing with a mask of a list of indices.
         rows = np.asarray(rows)
+        if rows.size == 0 and rows.dtype != bool:
+            rows = rows.astype(int)  # An empty list of row indices.
         if rows.dtype == bool:
             if len(rows) != len(self._table):
                 raise ValueError(
-- 
2.43.0


From 9a94d5931c474f9977dcc1093373ed5f16457d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 032/110] fix: filter_rows updates the list of filters

---
 src/lightcurvelynx/obstable/obs_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 09cc1ea..d62054f 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -468,6 +468,8 @@ class ObsTable:
 
         # Filter the rows in-place and build a new kd-tree.
         self._table = self._table[mask]
+        if "filter" in self._table.columns:
+            self.filters = np.unique(self._table["filter"])
         self._kd_tree = None
         self._build_kd_tree()
 
-- 
2.43.0


From 104012f506c8cf2973f889e9b63286ffa8e8a476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 033/110] fix: write_db stores the columns of the survey only

---
 src/lightcurvelynx/obstable/obs_table.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index d62054f..8d8453c 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -397,11 +397,11 @@ class ObsTable:
 
         con = sqlite3.connect(filename)
         try:
-            self._table.to_sql(tablename, con, if_exists=if_exists)
+            self._table.to_sql(tablename, con, if_exists=if_exists, index=False)
         except Exception:
             raise ValueError("Database write failed.") from None
-
-        con.close()
+        finally:
+            con.close()
 
     def write_parquet(self, filename, *, overwrite=False):
         """Write out the observation table as a parquet file.
-- 
2.43.0


From 05adc86d19af088ef87452bf993ba298e894ef23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 034/110] fix: surveys convert their pixel scale for the
 detector footprint

---
 src/lightcurvelynx/obstable/obs_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 8d8453c..2706b2d 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -141,7 +141,10 @@ class ObsTable:
         # Create the footprint if one is provided.
         self._wcs = wcs
         if isinstance(detector_footprint, Region):
+            # The survey's pixel scale is in arcseconds per pixel, the footprint's in degrees per pixel.
             pixel_scale = self.survey_values.get("pixel_scale", None)
+            if pixel_scale is not None:
+                pixel_scale = pixel_scale / 3600.0
             detector_footprint = DetectorFootprint(detector_footprint, wcs=wcs, pixel_scale=pixel_scale)
         self._detector_footprint = detector_footprint
 
-- 
2.43.0


From 321930b52ca9f33d9c4736313d60b0820ae82277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 035/110] fix: ZTF zero points use the survey's own noise
 parameters

---
 src/lightcurvelynx/obstable/ztf_obstable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/obstable/ztf_obstable.py b/src/lightcurvelynx/obstable/ztf_obstable.py
index ca1c0cf..1fb4bd0 100644
--- a/src/lightcurvelynx/obstable/ztf_obstable.py
+++ b/src/lightcurvelynx/obstable/ztf_obstable.py
@@ -99,9 +99,9 @@ class ZTFObsTable(ObsTable):
             maglim=self._table["maglim"],
             sky=self._table["sky"],
             fwhm=self._table["fwhm"],
-            gain=_ztfcam_ccd_gain,
-            readnoise=_ztfcam_readout_noise,
-            darkcurrent=_ztfcam_dark_current,
+            gain=self.safe_get_survey_value("gain"),
+            readnoise=self.safe_get_survey_value("read_noise"),
+            darkcurrent=self.safe_get_survey_value("dark_current"),
             exptime=self._table["exptime"],
             nexposure=1,
         )
-- 
2.43.0


From f42dc257e2e2d7a6fad7f3cd8df4d0af82aa309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 036/110] fix: ZTF surveys list the filters of the rows they
 keep

---
 src/lightcurvelynx/obstable/ztf_obstable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightcurvelynx/obstable/ztf_obstable.py b/src/lightcurvelynx/obstable/ztf_obstable.py
index 1fb4bd0..4810114 100644
--- a/src/lightcurvelynx/obstable/ztf_obstable.py
+++ b/src/lightcurvelynx/obstable/ztf_obstable.py
@@ -94,6 +94,8 @@ class ZTFObsTable(ObsTable):
         # replace invalid values in table
         self._table = self._table.replace("", np.nan)
         self._table = self._table.dropna(subset=["fwhm"])
+        if "filter" in self._table.columns:
+            self.filters = np.unique(self._table["filter"])
 
         zp_values = calculate_zp_from_maglim(
             maglim=self._table["maglim"],
-- 
2.43.0


From 9d0253c70ab6872a0af800d7b76144d07ad6f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 037/110] fix: ZTFObsTable.from_db passes survey values to the
 constructor

---
 src/lightcurvelynx/obstable/ztf_obstable.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/ztf_obstable.py b/src/lightcurvelynx/obstable/ztf_obstable.py
index 4810114..cb81966 100644
--- a/src/lightcurvelynx/obstable/ztf_obstable.py
+++ b/src/lightcurvelynx/obstable/ztf_obstable.py
@@ -111,7 +111,7 @@ class ZTFObsTable(ObsTable):
         self.add_column("zp", zp_nJy, overwrite=True)
 
     @classmethod
-    def from_db(cls, filename, sql_query="SELECT * from exposures", colmap=None):
+    def from_db(cls, filename, sql_query="SELECT * from exposures", colmap=None, **kwargs):
         """Create an ObsTable object from the data in a db file.
 
         Parameters
@@ -124,6 +124,9 @@ class ZTFObsTable(ObsTable):
         colmap : dict, optional
             A mapping of short column names to their names in the underlying table.
             If None then defaults to the ZTF column names.
+        **kwargs : dict, optional
+            Additional keyword arguments to pass to the constructor, such as overrides
+            of the survey values.
 
         Returns
         -------
@@ -151,7 +154,7 @@ class ZTFObsTable(ObsTable):
         # Close the connection.
         con.close()
 
-        return ZTFObsTable(obstable, colmap=colmap)
+        return cls(obstable, colmap=colmap, **kwargs)
 
     def bandflux_error_point_source(self, bandflux, index):
         """Compute observational bandflux error for a point source
-- 
2.43.0


From c909562515c14005c3992359a3d26bf0e4c7cdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:14 +0000
Subject: [PATCH 038/110] fix: a FakeObsTable keeps its noise settings when
 read back from parquet

---
 src/lightcurvelynx/obstable/fake_obs_table.py | 1 +
 src/lightcurvelynx/obstable/obs_table.py      | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/fake_obs_table.py b/src/lightcurvelynx/obstable/fake_obs_table.py
index 999f4a3..d73a2de 100644
--- a/src/lightcurvelynx/obstable/fake_obs_table.py
+++ b/src/lightcurvelynx/obstable/fake_obs_table.py
@@ -101,6 +101,7 @@ class FakeObsTable(ObsTable):
             radius=radius,
             read_noise=read_noise,
             sky=sky,
+            const_flux_error=const_flux_error,
             **kwargs,
         )
 
diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 2706b2d..1b42cbb 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -302,7 +302,11 @@ class ObsTable:
         if not Path(filename).is_file():
             raise FileNotFoundError(f"File {filename} not found.")
         survey_data = pd.read_parquet(filename)
-        return cls(survey_data)
+
+        # Pass the stored survey values explicitly, so they take precedence over the defaults
+        # of the constructor's arguments.
+        metadata = survey_data.attrs.get("lightcurvelynx_survey_data", {})
+        return cls(survey_data, **metadata)
 
     def build_moc(self, *, radius=None, max_depth=10):
         """Build a Multi-Order Coverage Map from the regions in the data set.
-- 
2.43.0


From 7cdcdd0504a33eb83ad6137a70abf73493f15bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 039/110] fix: RomanObsTable reads the given multi-accum table

---
 src/lightcurvelynx/obstable/roman_obstable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/roman_obstable.py b/src/lightcurvelynx/obstable/roman_obstable.py
index db90386..6d3c641 100644
--- a/src/lightcurvelynx/obstable/roman_obstable.py
+++ b/src/lightcurvelynx/obstable/roman_obstable.py
@@ -59,11 +59,11 @@ def _get_roman_char():
 
 def _get_ma_table(ma_table_path=None):
     if ma_table_path is None:
-        ma_table_file = (
+        ma_table_path = (
             _LIGHTCURVELYNX_BASE_DATA_DIR
             / "roman_characterization/roman_wfi_imaging_multiaccum_tables_with_exptime.csv"
         )
-    ma_table = pd.read_csv(ma_table_file)
+    ma_table = pd.read_csv(ma_table_path)
 
     return ma_table
 
-- 
2.43.0


From ec1532e8428e0bd976ae4410637df492dbf12566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 040/110] fix: RomanObsTable accepts dictionaries and leaves
 the caller's table unchanged

---
 src/lightcurvelynx/obstable/roman_obstable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/roman_obstable.py b/src/lightcurvelynx/obstable/roman_obstable.py
index 6d3c641..8253f94 100644
--- a/src/lightcurvelynx/obstable/roman_obstable.py
+++ b/src/lightcurvelynx/obstable/roman_obstable.py
@@ -103,7 +103,8 @@ class RomanObsTable(ObsTable):
     def __init__(self, table, colmap=None, ma_table_path=None, **kwargs):
         colmap = self._default_colnames if colmap is None else colmap
 
-        self.apt_table = table
+        # Work on a copy, because we add columns.
+        self.apt_table = pd.DataFrame(table) if isinstance(table, dict) else table.copy()
         self.ma_table = _get_ma_table(ma_table_path)
         roman_char = _get_roman_char()
         self.zp_table = roman_char["zp_table"]
-- 
2.43.0


From 9db8ebbcf7d1f00d2bcda25dc71017bfa47a2018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 041/110] fix: the constant flux error of a single observation
 is looked up by its filter

---
 src/lightcurvelynx/obstable/fake_obs_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lightcurvelynx/obstable/fake_obs_table.py b/src/lightcurvelynx/obstable/fake_obs_table.py
index d73a2de..57acaf3 100644
--- a/src/lightcurvelynx/obstable/fake_obs_table.py
+++ b/src/lightcurvelynx/obstable/fake_obs_table.py
@@ -180,6 +180,8 @@ class FakeObsTable(ObsTable):
         # If we have a constant flux error, use that.
         if self.const_flux_error is not None:
             filters = self._table["filter"].iloc[index]
+            if isinstance(filters, str):  # A single observation.
+                return self.const_flux_error[filters]
             return np.array([self.const_flux_error[fil] for fil in filters])
 
         # Otherwise compute the flux error using the poisson_bandflux_std noise model.
-- 
2.43.0


From 24bb73bb768c5ca4da24028205c0d20ec3cc0d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 042/110] fix: oversample_opsim accepts any number of time
 points

---
 src/lightcurvelynx/obstable/opsim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/opsim.py b/src/lightcurvelynx/obstable/opsim.py
index 622fb73..7f07b8a 100644
--- a/src/lightcurvelynx/obstable/opsim.py
+++ b/src/lightcurvelynx/obstable/opsim.py
@@ -324,7 +324,7 @@ def oversample_opsim(
             "time": new_times,
             "ra": ra,
             "dec": dec,
-            "filter": np.tile(bands, n // len(bands)),
+            "filter": np.resize(bands, n),  # Cycle through the bands.
         }
     )
     other_columns = [column for column in observations.columns if column not in new_table.columns]
-- 
2.43.0


From f8729ca90f6d955fe49c3a98d3e38adef4dd058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 043/110] fix: oversample_opsim works with repeated row labels

---
 src/lightcurvelynx/obstable/opsim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightcurvelynx/obstable/opsim.py b/src/lightcurvelynx/obstable/opsim.py
index 7f07b8a..c8de745 100644
--- a/src/lightcurvelynx/obstable/opsim.py
+++ b/src/lightcurvelynx/obstable/opsim.py
@@ -295,6 +295,7 @@ def oversample_opsim(
     """
     ra, dec = pointing
     observations = opsim._table.iloc[opsim.range_search(ra, dec, radius=search_radius)]
+    observations = observations.reset_index(drop=True)  # Make the row labels unique.
     if len(observations) == 0:
         raise ValueError("No observations found for the given pointing.")
 
-- 
2.43.0


From e165dd3e9c8fc621f306c7a852535fad2457f4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:52 +0000
Subject: [PATCH 044/110] fix: oversample_opsim does not need observation ids

---
 src/lightcurvelynx/obstable/opsim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/opsim.py b/src/lightcurvelynx/obstable/opsim.py
index c8de745..82833b8 100644
--- a/src/lightcurvelynx/obstable/opsim.py
+++ b/src/lightcurvelynx/obstable/opsim.py
@@ -320,14 +320,15 @@ def oversample_opsim(
 
     new_table = pd.DataFrame(
         {
-            # Just in case, to not have confusion with the original table
-            "observationId": opsim._table["observationId"].max() + 1 + np.arange(n),
             "time": new_times,
             "ra": ra,
             "dec": dec,
             "filter": np.resize(bands, n),  # Cycle through the bands.
         }
     )
+    if "observationId" in observations.columns:
+        # Just in case, to not have confusion with the original table
+        new_table["observationId"] = opsim._table["observationId"].max() + 1 + np.arange(n)
     other_columns = [column for column in observations.columns if column not in new_table.columns]
 
     if strategy == "darkest_sky":
-- 
2.43.0


From 784e5e79cf646a65706571e3709c18efbb0c038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 045/110] fix: zero points of an empty survey can be computed

---
 src/lightcurvelynx/astro_utils/zeropoint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/zeropoint.py b/src/lightcurvelynx/astro_utils/zeropoint.py
index 88182d5..3996091 100644
--- a/src/lightcurvelynx/astro_utils/zeropoint.py
+++ b/src/lightcurvelynx/astro_utils/zeropoint.py
@@ -51,8 +51,8 @@ def magnitude_electron_zeropoint(  # noqa: D103
     instr_zp = _lsstcam_zeropoint_per_sec_zenith if instr_zp is None else instr_zp
     ext_coeff = _lsstcam_extinction_coeff if ext_coeff is None else ext_coeff
 
-    instr_zp_getter = np.vectorize(instr_zp.get)
-    ext_coeff_getter = np.vectorize(ext_coeff.get)
+    instr_zp_getter = np.vectorize(instr_zp.get, otypes=[float])
+    ext_coeff_getter = np.vectorize(ext_coeff.get, otypes=[float])
 
     return instr_zp_getter(band) + ext_coeff_getter(band) * (airmass - 1) + 2.5 * np.log10(exptime)
 
-- 
2.43.0


From 71ff3c16dec989f45f904a14ae0e02a80b01615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 046/110] fix: pixel footprints are centred on the pointing

---
 src/lightcurvelynx/astro_utils/detector_footprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/detector_footprint.py b/src/lightcurvelynx/astro_utils/detector_footprint.py
index 4ce9916..8080ca7 100644
--- a/src/lightcurvelynx/astro_utils/detector_footprint.py
+++ b/src/lightcurvelynx/astro_utils/detector_footprint.py
@@ -35,7 +35,7 @@ class DetectorFootprint:
             wcs = WCS(naxis=2)
             wcs.wcs.ctype = ["RA---TAN", "DEC--TAN"]
             wcs.wcs.crval = [0.0, 0.0]  # Centered on (0.0, 0.0)
-            wcs.wcs.crpix = [0.5, 0.5]  # Reference pixel at the center of (0.0, 0.0)
+            wcs.wcs.crpix = [1.0, 1.0]  # The (1-based) center of pixel (0, 0) is at (0.0, 0.0)
             wcs.wcs.cdelt = [pixel_scale, pixel_scale]  # The given pixel scale in degrees/pixel
         self.wcs = wcs
 
-- 
2.43.0


From 143b1b00154e33111b09e7a1073881dd5e1f556b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 047/110] fix: band fluxes are normalised when the grid step
 does not divide the range

---
 src/lightcurvelynx/astro_utils/passbands.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 7346a61..941d2ff 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -1023,7 +1023,8 @@ class Passband:
         self.processed_transmission_table = self._normalize_transmission_table(trimmed_table)
 
         self.waves = self.processed_transmission_table[:, 0]
-        self.delta_wave = delta_wave
+        # The step of the grid differs from the requested one if that does not divide the range.
+        self.delta_wave = None if delta_wave is None else self.waves[1] - self.waves[0]
 
     def _interpolate_transmission_table(self, table: np.ndarray, delta_wave: float | None) -> np.ndarray:
         """Interpolate the transmission table to a new wave grid.
-- 
2.43.0


From 915b139e43d9bf2bb368baf2ea8e4008133c8657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 048/110] fix: transmission tables may repeat a wavelength

---
 src/lightcurvelynx/astro_utils/passbands.py | 25 ++++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 941d2ff..651b3c4 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -704,9 +704,7 @@ class Passband:
             raise ValueError("Wavelengths in transmission table must be strictly increasing.")
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
-            dup_inds = np.where(diffs == 0.0)
-            table_values[dup_inds, 1] = 0.5 * (table_values[dup_inds, 1] + table_values[dup_inds + 1, 1])
-            table_values = np.delete(table_values, dup_inds + 1, axis=0)
+            table_values = Passband._average_duplicate_wavelengths(table_values)
         self._loaded_table = np.copy(table_values)
 
         # Ensure the wavelengths are in Angstroms.
@@ -914,6 +912,23 @@ class Passband:
             **kwargs,
         )
 
+    @staticmethod
+    def _average_duplicate_wavelengths(table: np.ndarray) -> np.ndarray:
+        """Merge the rows with the same wavelength into one row with their average transmission.
+
+        Parameters
+        ----------
+        table : np.ndarray
+            A 2D array of wavelengths and transmissions.
+
+        Returns
+        -------
+        np.ndarray
+            A new 2D array with strictly increasing wavelengths.
+        """
+        waves, inverse, counts = np.unique(table[:, 0], return_inverse=True, return_counts=True)
+        return np.column_stack((waves, np.bincount(inverse, weights=table[:, 1]) / counts))
+
     @staticmethod
     def load_transmission_table(
         table_path: Union[str, Path],
@@ -997,9 +1012,7 @@ class Passband:
             raise ValueError("Wavelengths in transmission table must be increasing.")
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
-            dup_inds = np.where(diffs == 0.0)
-            loaded_table[dup_inds, 1] = 0.5 * (loaded_table[dup_inds, 1] + loaded_table[dup_inds + 1, 1])
-            loaded_table = np.delete(loaded_table, dup_inds + 1, axis=0)
+            loaded_table = Passband._average_duplicate_wavelengths(loaded_table)
 
         return loaded_table
 
-- 
2.43.0


From 495c840ce287d4518fda4e457065ccd9b21c1032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:13 +0000
Subject: [PATCH 049/110] fix: passbands accept tables of integers in
 nanometres

---
 src/lightcurvelynx/astro_utils/passbands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 651b3c4..e49f721 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -705,7 +705,7 @@ class Passband:
         if np.any(diffs == 0.0):
             logger.warning("Duplicate wavelengths found in transmission table; averaging values.")
             table_values = Passband._average_duplicate_wavelengths(table_values)
-        self._loaded_table = np.copy(table_values)
+        self._loaded_table = np.array(table_values, dtype=float)
 
         # Ensure the wavelengths are in Angstroms.
         if units == "nm":
-- 
2.43.0


From 6fecac48840a8142b662960adddf8ecba22a216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:23 +0000
Subject: [PATCH 050/110] fix: a transmission table of zeros is refused with a
 value error

---
 src/lightcurvelynx/astro_utils/passbands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index e49f721..0b94ec9 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -1157,7 +1157,7 @@ class Passband:
             raise ValueError(
                 "Denominator is zero; cannot normalize transmission table. "
                 f"Consider checking the transmission table for band {self.full_name}. "
-                f"With wave grid set to: {self._wave_grid}, transmission table wavelengths are: "
+                "Transmission table wavelengths are: "
                 f"{transmission_table[:, 0]}."
             )
 
-- 
2.43.0


From acb36056ea4097f8afa5ef64ead8fa817d331917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 051/110] fix: transmission tables with one row are refused
 with a value error

---
 src/lightcurvelynx/astro_utils/passbands.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 0b94ec9..318a913 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -697,8 +697,10 @@ class Passband:
         self.delta_wave = delta_wave
 
         # Perform validation of the transmission table.
-        if table_values.shape[1] != 2:
+        if table_values.ndim != 2 or table_values.shape[1] != 2:
             raise ValueError("Passband requires an input table with exactly two columns.")
+        if len(table_values) < 2:
+            raise ValueError("Passband requires an input table with at least two rows.")
         diffs = np.diff(table_values[:, 0])
         if np.any(diffs < 0.0):
             raise ValueError("Wavelengths in transmission table must be strictly increasing.")
@@ -996,7 +998,7 @@ class Passband:
             raise ValueError(f"Unsupported file format for transmission table: {table_path.suffix}")
 
         # Check that the table has the correct shape
-        if loaded_table.size == 0 or loaded_table.shape[1] != 2:
+        if loaded_table.size == 0 or loaded_table.ndim != 2 or loaded_table.shape[1] != 2:
             raise ValueError("Transmission table must have exactly 2 columns.")
 
         # If the table is given in nanometers, convert to Angstroms (by multiplying by 10.0).
-- 
2.43.0


From f52945f64f1f3a68d13f3b863cdf30eb21f480ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 052/110] fix: PassbandGroup.from_dir accepts relative paths

---
 src/lightcurvelynx/astro_utils/passbands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 318a913..56340b8 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -214,7 +214,7 @@ class PassbandGroup:
                     params = {
                         "survey": dir_path.name,
                         "filter_name": filter_name,
-                        "table_path": dir_path / entry,
+                        "table_path": entry,
                         "delta_wave": delta_wave,
                         "trim_quantile": trim_quantile,
                         "units": units,
-- 
2.43.0


From 9dc60ff83355071153fa80df4a4fefd8d1d7ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:43 +0000
Subject: [PATCH 053/110] fix: passband groups use the closest wavelengths of
 the combined grid

---
 src/lightcurvelynx/astro_utils/passbands.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 56340b8..17f408b 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -495,7 +495,11 @@ class PassbandGroup:
             if np.array_equal(self.waves[lower_index : upper_index + 1], passband.waves):
                 indices = slice(lower_index, upper_index + 1)
             else:
+                # Use the closest wavelengths of the group, because close ones have been merged.
                 indices = np.searchsorted(self.waves, passband.waves)
+                indices = np.clip(indices, 1, len(self.waves) - 1)
+                below = passband.waves - self.waves[indices - 1] < self.waves[indices] - passband.waves
+                indices = np.where(below, indices - 1, indices)
             self._in_band_wave_indices[name] = indices
 
     def wave_bounds(self):
-- 
2.43.0


From 436ef9e68fa00d9541881dc505c62985620189c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:31 +0000
Subject: [PATCH 054/110] fix: PassbandGroup.fluxes_to_bandflux refuses
 ambiguous filter names

---
 src/lightcurvelynx/astro_utils/passbands.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index 17f408b..b1ba838 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -570,6 +570,10 @@ class PassbandGroup:
         """
         if filter not in self.passbands:
             if filter in self._filter_to_name:
+                if len(self._filter_to_name[filter]) > 1:
+                    raise ValueError(
+                        f"Filter {filter} corresponds to multiple passbands: {self._filter_to_name[filter]}."
+                    )
                 filter = self._filter_to_name[filter][0]
             else:
                 raise ValueError(f"Filter {filter} not found in passband group.")
-- 
2.43.0


From 620c88e4c72b30bfc376a201471ac7e3b95dc9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 055/110] fix: the Roman preset accepts its unit and
 force_download

---
 src/lightcurvelynx/astro_utils/passbands.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index b1ba838..a0e0857 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -339,12 +339,11 @@ class PassbandGroup:
         passbands = []
 
         # Check that units are what is expected for this preset.
-        if kwargs.get("units", "micron") != "micron":
-            raise ValueError(
-                f"Roman passbands are expected to be in microns (micron), but got {kwargs.get('units')}"
-            )
+        units = kwargs.pop("units", "micron")
+        if units != "micron":
+            raise ValueError(f"Roman passbands are expected to be in microns (micron), but got {units}")
 
-        force_download = kwargs.get("force_download", False)
+        force_download = kwargs.pop("force_download", False)
         table_path = table_dir / "Roman" / "roman_wfi_filters.ecsv"
         table_url = (
             "https://github.com/RomanSpaceTelescope/roman-technical-information/blob/main/data/"
-- 
2.43.0


From 829d131a000f2efce569737b8a83ddda7e1fb8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:33 +0000
Subject: [PATCH 056/110] fix: GaussianGalaxy compares its radius with the
 separation in degrees

---
 src/lightcurvelynx/models/galaxy_models.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/models/galaxy_models.py b/src/lightcurvelynx/models/galaxy_models.py
index b4240f9..c6b0400 100644
--- a/src/lightcurvelynx/models/galaxy_models.py
+++ b/src/lightcurvelynx/models/galaxy_models.py
@@ -60,11 +60,14 @@ class GaussianGalaxy(SEDModel):
 
         dist = 0.0
         if ra is not None and dec is not None:
-            dist = angular_separation(
-                params["ra"] * np.pi / 180.0,
-                params["dec"] * np.pi / 180.0,
-                ra * np.pi / 180.0,
-                dec * np.pi / 180.0,
+            # Compute the separation in degrees (the same units as the galaxy's radius).
+            dist = np.rad2deg(
+                angular_separation(
+                    params["ra"] * np.pi / 180.0,
+                    params["dec"] * np.pi / 180.0,
+                    ra * np.pi / 180.0,
+                    dec * np.pi / 180.0,
+                )
             )
 
         # Scale the brightness as a Guassian function centered on the object's RA and Dec.
-- 
2.43.0


From 4e7dc628fe4479d3d027ac6bd6b8388b70ac6ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 057/110] fix: evaluate_sed can sample parameters when it is
 given extra arguments

---
 src/lightcurvelynx/models/physical_model.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index 1a1affb..ff89338 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -495,9 +495,7 @@ class SEDModel(BasePhysicalModel):
 
         # Check if we need to sample the graph.
         if graph_state is None:
-            graph_state = self.sample_parameters(
-                given_args=given_args, num_samples=1, rng_info=rng_info, **kwargs
-            )
+            graph_state = self.sample_parameters(given_args=given_args, num_samples=1, rng_info=rng_info)
 
         # If we only have a single sample, do not bother to iterate through the states.
         if graph_state.num_samples == 1:
-- 
2.43.0


From 070e44f77670024c8c03bea5a6fc61151d393d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 058/110] fix: StaticSEDModel ignores arguments for other
 models

---
 src/lightcurvelynx/models/static_sed_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/static_sed_model.py b/src/lightcurvelynx/models/static_sed_model.py
index d44a01d..02180d9 100644
--- a/src/lightcurvelynx/models/static_sed_model.py
+++ b/src/lightcurvelynx/models/static_sed_model.py
@@ -177,7 +177,7 @@ class StaticSEDModel(SEDModel):
         idx = self.get_param(graph_state, "selected_idx")
         return self.sed_values[idx][0, -1]
 
-    def compute_sed(self, times, wavelengths, graph_state):
+    def compute_sed(self, times, wavelengths, graph_state, **kwargs):
         """Draw effect-free observer frame flux densities.
 
         Parameters
@@ -188,6 +188,8 @@ class StaticSEDModel(SEDModel):
             A length N array of observer frame wavelengths (in angstroms).
         graph_state : GraphState
             An object mapping graph parameters to their values.
+        **kwargs : dict, optional
+            Any additional keyword arguments.
 
         Returns
         -------
-- 
2.43.0


From 0b8f3763388be61778e27165ba92d2ba6c38b187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 059/110] fix: light curve templates accept integer tables and
 baselines

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index e98ff0e..f5925bc 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -94,7 +94,7 @@ class LightcurveData:
 
         if isinstance(lightcurves, dict):
             # Make a copy of the light curves to avoid modifying the original data.
-            self.lightcurves = {filter: lc.copy() for filter, lc in lightcurves.items()}
+            self.lightcurves = {filter: np.array(lc, dtype=float) for filter, lc in lightcurves.items()}
         elif isinstance(lightcurves, np.ndarray):
             if lightcurves.shape[1] != 3:
                 raise ValueError("Light curves array must have 3 columns: time, flux, and filter.")
@@ -330,7 +330,7 @@ class LightcurveData:
             times = times % self.period
 
         # Start with an array of all baseline values.
-        values = np.full(len(times), self.baseline.get(filter, 0.0))
+        values = np.full(len(times), self.baseline.get(filter, 0.0), dtype=float)
 
         # For the times that overlap with the light curve, interpolate the light curve values.
         overlap = (times >= self.min_times[filter]) & (times <= self.max_times[filter])
-- 
2.43.0


From 8ff0bdd85fb55b7e4f9debeac3fce747adab2206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:43 +0000
Subject: [PATCH 060/110] fix: the default baseline of light curves given in
 magnitudes is zero flux

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index f5925bc..47181e1 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -145,12 +145,12 @@ class LightcurveData:
             for filter in self.lightcurves:
                 if filter not in baseline:
                     raise ValueError(f"Baseline value for filter {filter} is missing.")
-            self.baseline = baseline
+            self.baseline = dict(baseline)
 
-        # Convert the baseline from magnitudes to fluxes if needed.
-        if magnitudes_in:
-            for filter in self.baseline:
-                self.baseline[filter] = mag2flux(self.baseline[filter])
+            # Convert the baseline from magnitudes to fluxes if needed.
+            if magnitudes_in:
+                for filter in self.baseline:
+                    self.baseline[filter] = mag2flux(self.baseline[filter])
 
     def __len__(self):
         """Get the number of light curves."""
-- 
2.43.0


From f61a561f435956d1e410348290a1d2e9119f2482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 061/110] fix: template spectra use the closest wavelengths of
 the combined grid

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index 47181e1..3ae0bbd 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -463,8 +463,8 @@ class BaseLightcurveTemplateModel(BandfluxModel, ABC):
             # Get all of the wavelengths that have a non-negligible transmission value
             # for this filter and find their indices in the passband group.
             is_significant = passbands[filter].processed_transmission_table[:, 1] > 1e-5
-            significant_waves = passbands[filter].waves[is_significant]
-            indices = np.searchsorted(passbands.waves, significant_waves)
+            band_indices = passbands._in_band_wave_indices[passbands[filter].full_name]
+            indices = np.arange(len(passbands.waves))[band_indices][is_significant]
 
             # Mark all non-negligible wavelengths as used by this filter.
             waves_per_filter[idx, indices] = 1.0
-- 
2.43.0


From e5acc9f17789fb1da533711c955a700b63fefad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 062/110] fix: evaluate_bandfluxes accepts lists of times

---
 src/lightcurvelynx/models/physical_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index ff89338..c6756c4 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -202,6 +202,7 @@ class BasePhysicalModel(ParameterizedNode, ABC):
 
         if filters is None:
             raise ValueError("If passband_or_group is a PassbandGroup, filters must be provided.")
+        times = np.asarray(times)
         filters = np.asarray(filters)
         if len(filters) != len(times):
             raise ValueError("Filters array must have the same length as times array.")
-- 
2.43.0


From 1d5f5af66107b02bcc58943aeb26b9b98e262daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:23 +0000
Subject: [PATCH 063/110] fix: SplineModel evaluates times and wavelengths in
 any order

---
 src/lightcurvelynx/models/spline_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/spline_model.py b/src/lightcurvelynx/models/spline_model.py
index 572526f..50a0e09 100644
--- a/src/lightcurvelynx/models/spline_model.py
+++ b/src/lightcurvelynx/models/spline_model.py
@@ -5,6 +5,7 @@ It is adapted from sncosmo's TimeSeriesSource model:
 https://github.com/sncosmo/sncosmo/blob/v2.10.1/sncosmo/models.py
 """
 
+import numpy as np
 from scipy.interpolate import RectBivariateSpline
 
 from lightcurvelynx.models.physical_model import SEDModel
@@ -187,5 +188,11 @@ class SplineModel(SEDModel):
         if t0 is None:
             t0 = 0.0
 
-        fluxes = params["amplitude"] * self._spline(times - t0, wavelengths, grid=True)
+        # Evaluate each (time, wavelength) pair, because the spline only accepts grids that are
+        # strictly increasing.
+        fluxes = params["amplitude"] * self._spline(
+            (times - t0)[:, np.newaxis],
+            wavelengths[np.newaxis, :],
+            grid=False,
+        )
         return fluxes
-- 
2.43.0


From 7f894f5d839a8da43764b70e552a79f6a83d9a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 064/110] fix: sncosmo models evaluate times and wavelengths in
 any order

---
 src/lightcurvelynx/models/sncomso_models.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/sncomso_models.py b/src/lightcurvelynx/models/sncomso_models.py
index 37a664d..803c36b 100644
--- a/src/lightcurvelynx/models/sncomso_models.py
+++ b/src/lightcurvelynx/models/sncomso_models.py
@@ -267,8 +267,12 @@ class SncosmoWrapperModel(SEDModel, CiteClass):
         if np.any(wavelengths < self.source.minwave()) or np.any(wavelengths > self.source.maxwave()):
             return self.compute_sed_with_extrapolation(times, wavelengths, graph_state, **kwargs)
 
-        # Query the model and convert the output to nJy.
-        model_flam = self.source.flux(times - params["t0"], wavelengths)
+        # Query the model and convert the output to nJy. sncosmo only accepts sorted times and
+        # wavelengths, so we query the sorted values and put the results in the order requested.
+        query_times, time_inds = np.unique(times, return_inverse=True)
+        query_waves, wave_inds = np.unique(wavelengths, return_inverse=True)
+        model_flam = self.source.flux(query_times - params["t0"], query_waves)
+        model_flam = model_flam[np.ix_(time_inds, wave_inds)]
         model_fnu = flam_to_fnu(
             model_flam,
             wavelengths,
-- 
2.43.0


From ca017d6325e2b1a53e045761a6669df32675f428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 065/110] fix: models pass only the cosmology to the distance
 function

---
 src/lightcurvelynx/models/physical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/physical_model.py b/src/lightcurvelynx/models/physical_model.py
index c6756c4..e273ac6 100644
--- a/src/lightcurvelynx/models/physical_model.py
+++ b/src/lightcurvelynx/models/physical_model.py
@@ -83,7 +83,7 @@ class BasePhysicalModel(ParameterizedNode, ABC):
         if distance is not None:
             self.add_parameter("distance", distance, allow_gradient=False)
         elif redshift is not None and kwargs.get("cosmology") is not None:
-            self._redshift_func = RedshiftDistFunc(redshift=self.redshift, **kwargs)
+            self._redshift_func = RedshiftDistFunc(redshift=self.redshift, cosmology=kwargs["cosmology"])
             self.add_parameter("distance", self._redshift_func, allow_gradient=False)
         else:
             self.add_parameter("distance", None, allow_gradient=False)
-- 
2.43.0


From 098f65c739a4c2700342b5f12641cd0b559a6ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 066/110] fix: sncosmo models can derive parameters from their
 own parameters

---
 src/lightcurvelynx/models/sncomso_models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/sncomso_models.py b/src/lightcurvelynx/models/sncomso_models.py
index 803c36b..898dbe3 100644
--- a/src/lightcurvelynx/models/sncomso_models.py
+++ b/src/lightcurvelynx/models/sncomso_models.py
@@ -203,8 +203,12 @@ class SncosmoWrapperModel(SEDModel, CiteClass):
         ------
         Raise a ValueError the sampling encounters a problem with the order of dependencies.
         """
+        # If a parameter depends on other parameters of this node, then this function is called
+        # again before all the parameters are set. Only the first call updates the source.
+        first_visit = str(self) not in seen_nodes
         super()._sample_helper(graph_state, seen_nodes, rng_info=rng_info)
-        self._update_sncosmo_model_parameters(graph_state)
+        if first_visit:
+            self._update_sncosmo_model_parameters(graph_state)
 
     def mask_by_time(self, times, graph_state=None):
         """Compute a mask for whether a given time is of interest for a given object.
-- 
2.43.0


From 445af1e0e29080b8ba1cb3b3d9920aa3391d9f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:34 +0000
Subject: [PATCH 067/110] fix: apply a rest frame effect once to an object
 listed several times in a multi object model

---
 .../models/multi_object_model.py              | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index b75922b..6937cd1 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -109,24 +109,31 @@ class MultiObjectModel(SEDModel):
         for object in self.objects:
             object.set_apply_redshift(apply_redshift)
 
-    def add_effect(self, effect):
+    def add_effect(self, effect, skip_params=False):
         """Add an effect to each of the submodels.
 
         Parameters
         ----------
         effect : Effect
             The effect to add to the model.
+        skip_params : bool
+            Skip adding the parameters to the model (or its submodels). See
+            SEDModel.add_effect() for details.
+            Default: False
         """
         if effect.rest_frame:
-            # The rest frame effects are applied to each object.
-            for object in self.objects:
-                object.add_effect(effect)
+            # The rest frame effects are applied to each object (once, even if
+            # the object is listed multiple times).
+            for idx, object in enumerate(self.objects):
+                if not any(object is other for other in self.objects[:idx]):
+                    object.add_effect(effect, skip_params=skip_params)
         else:
             # Add observer frame effects to this model.
             # Add any effect parameters that are not already in the model.
-            for param_name, setter in effect.parameters.items():
-                if param_name not in self.setters:
-                    self.add_parameter(param_name, setter, allow_gradient=False)
+            if not skip_params:
+                for param_name, setter in effect.parameters.items():
+                    if param_name not in self.setters:
+                        self.add_parameter(param_name, setter, allow_gradient=False)
             self.obs_frame_effects.append(effect)
 
     def _sample_helper(self, graph_state, seen_nodes, rng_info=None):
-- 
2.43.0


From acd3136af1995c4e0fb2e8226c41e00ac995b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 068/110] fix: use a fixed order of the filters in template
 light curve models

---
 .../models/lightcurve_template_model.py               | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index 3ae0bbd..57d279f 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -231,8 +231,8 @@ class LightcurveData:
         if filters is None:
             filters = filter_cols
         else:
-            to_keep = set(filter_cols) & set(filters)
-            filters = list(to_keep)
+            to_keep = set(filters)
+            filters = [col for col in filter_cols if col in to_keep]
         if len(filters) == 0:
             raise ValueError("Light curves table must have at least one filter column.")
 
@@ -795,7 +795,10 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
             self.all_filters.update(lc.filters)
         self.lightcurves = lightcurves
 
-        super().__init__(passbands, filters=list(self.all_filters), **kwargs)
+        # Use a fixed order of the filters, so the nodes and parameters do not depend on the
+        # (arbitrary) order of the set.
+        ordered_filters = sorted(self.all_filters)
+        super().__init__(passbands, filters=ordered_filters, **kwargs)
 
         all_inds = [i for i in range(len(lightcurves))]
         self._sampler_node = GivenValueSampler(all_inds, weights=weights)
@@ -805,7 +808,7 @@ class MultiLightcurveTemplateModel(BaseLightcurveTemplateModel):
         # Create a parameter to track the baseline values for the selected light curve. The node
         # will automatically fill in the correct baseline value based on the index given by
         # the selected_lightcurve parameter.
-        for fltr in self.all_filters:
+        for fltr in ordered_filters:
             baselines = [lc.baseline.get(fltr, 0.0) for lc in lightcurves]
             baseline_selector = GivenValueSelector(baselines, self.selected_lightcurve)
             self.add_parameter(f"baseline_{fltr}", value=baseline_selector, allow_gradient=False)
-- 
2.43.0


From 3e99d3af74bd6726e32a701174a6427dbfe54e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 069/110] fix: accept LightcurveData objects in
 LightcurveTemplateModel as documented

---
 src/lightcurvelynx/models/lightcurve_template_model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/lightcurve_template_model.py b/src/lightcurvelynx/models/lightcurve_template_model.py
index 57d279f..539dca9 100644
--- a/src/lightcurvelynx/models/lightcurve_template_model.py
+++ b/src/lightcurvelynx/models/lightcurve_template_model.py
@@ -644,7 +644,11 @@ class LightcurveTemplateModel(BaseLightcurveTemplateModel):
         **kwargs,
     ):
         # Store the light curve data, parsing out different formats if needed.
-        self.lightcurves = LightcurveData(lightcurves, lc_data_t0, periodic=periodic, baseline=baseline)
+        if isinstance(lightcurves, LightcurveData):
+            # Already parsed, including the reference epoch, the periodicity, and the baseline.
+            self.lightcurves = lightcurves
+        else:
+            self.lightcurves = LightcurveData(lightcurves, lc_data_t0, periodic=periodic, baseline=baseline)
         super().__init__(passbands, filters=self.lightcurves.filters, **kwargs)
 
     def compute_sed(self, times, wavelengths, graph_state):
-- 
2.43.0


From 0bb389c5a15093b705e6f72aaa6358c6b4b3cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 070/110] fix: keep the eclipse total when circles are within
 rounding of internal tangency

---
 src/lightcurvelynx/models/periodic_variable_star.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/models/periodic_variable_star.py b/src/lightcurvelynx/models/periodic_variable_star.py
index 92742b7..9ab2fef 100644
--- a/src/lightcurvelynx/models/periodic_variable_star.py
+++ b/src/lightcurvelynx/models/periodic_variable_star.py
@@ -254,8 +254,9 @@ class EclipsingBinaryStar(PeriodicVariableStar):
         with np.errstate(divide="ignore", invalid="ignore"):
             # Angles between lines connecting the centers of the circles and the points of intersection.
             # These are halves of the intersection-center-intersection angles.
-            alpha1 = np.arccos((d_sq + r1_sq - r2_sq) / (2 * r1 * d))
-            alpha2 = np.arccos((d_sq + r2_sq - r1_sq) / (2 * r2 * d))
+            # Rounding can put the cosines slightly outside of [-1, 1] when the circles are nearly tangent.
+            alpha1 = np.arccos(np.clip((d_sq + r1_sq - r2_sq) / (2 * r1 * d), -1.0, 1.0))
+            alpha2 = np.arccos(np.clip((d_sq + r2_sq - r1_sq) / (2 * r2 * d), -1.0, 1.0))
 
             # Area of circular segments, it is 1/2 r^2 angle, angle = 2 alpha, so area = r^2 alpha
             area1 = r1_sq * alpha1
-- 
2.43.0


From 96bd4a5df8dbe1219ddacc0200fb6eef138cca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:54 +0000
Subject: [PATCH 071/110] fix: use the requested Rv in the extinction law of
 BayesnModel

---
 src/lightcurvelynx/models/bayesn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/bayesn.py b/src/lightcurvelynx/models/bayesn.py
index 0e1bcfa..ca0187b 100644
--- a/src/lightcurvelynx/models/bayesn.py
+++ b/src/lightcurvelynx/models/bayesn.py
@@ -488,7 +488,8 @@ class BayesnModel(SEDModel, CiteClass):
         # Apply dust extinction law
         # Get ebv such that ebv = Rv/Av
         ebv = params["Av"] / params["Rv"]
-        ext = ExtinctionEffect(extinction_model="F99", ebv=ebv, frame="rest")
+        ext_law = ExtinctionEffect.load_extinction_model("F99", Rv=params["Rv"])
+        ext = ExtinctionEffect(extinction_model=ext_law, ebv=ebv, frame="rest")
         flux_density = ext.apply(flux_density, tau, wavelengths, ebv)
 
         # Apply the fixed distance modulus normalisation factor effect
-- 
2.43.0


From e2e76bc4bbaf3e3fc1f36b6021275768a3f25a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 072/110] fix: interpolate the Hsiao template in BayesnModel
 with a proper natural cubic spline

---
 src/lightcurvelynx/models/bayesn.py | 175 +---------------------------
 1 file changed, 5 insertions(+), 170 deletions(-)

diff --git a/src/lightcurvelynx/models/bayesn.py b/src/lightcurvelynx/models/bayesn.py
index ca0187b..2a39613 100644
--- a/src/lightcurvelynx/models/bayesn.py
+++ b/src/lightcurvelynx/models/bayesn.py
@@ -2,6 +2,7 @@ import h5py
 import numpy as np
 from astropy import units as u
 from citation_compass import CiteClass
+from scipy.interpolate import CubicSpline
 
 from lightcurvelynx import _LIGHTCURVELYNX_BASE_DATA_DIR
 from lightcurvelynx.astro_utils.unit_utils import flam_to_fnu
@@ -217,173 +218,9 @@ class BayesnModel(SEDModel, CiteClass):
         J += c[:, None] * invKD[idxs] + d[:, None] * invKD[idxs + 1]
         return J
 
-    def compute_second_derivatives_1d(self, x, y):
-        """
-        Compute natural cubic spline second derivatives (M) for 1D input.
-
-        Parameters
-        ----------
-        x : (n,) array_like
-            Knot positions.
-        y : (n,) array_like
-            Values at knots.
-
-        Returns
-        -------
-        M : (n,) ndarray
-            Second derivatives at knots.
-        """
-        n = len(x)
-        h = np.diff(x)
-
-        # Step1: Compute RHS alpha for the linear system
-        alpha = np.zeros(n)
-        for i in range(1, n - 1):
-            alpha[i] = (3 / h[i]) * (y[i + 1] - y[i]) - (3 / h[i - 1]) * (y[i] - y[i - 1])
-
-        # Step 2: Forward elimination (Thomas algorithm for tridiagonal system)
-        wave = np.ones(n)
-        mu = np.zeros(n)
-        z = np.zeros(n)
-        for i in range(1, n - 1):
-            wave[i] = 2 * (x[i + 1] - x[i - 1]) - h[i - 1] * mu[i - 1]
-            mu[i] = h[i] / wave[i]
-            z[i] = (alpha[i] - h[i - 1] * z[i - 1]) / wave[i]
-
-        # Step 3: Back substitution to solve for second derivatives
-        M = np.zeros(n)
-        for j in range(n - 2, 0, -1):
-            M[j] = z[j] - mu[j] * M[j + 1]
-        return M
-
-    def compute_2d_second_derivatives(self, x, y, z):
-        """
-        Compute second derivatives in both x and y directions for 2D natural cubic spline.
-
-        Parameters
-        ----------
-        x : (n,) array_like
-            Knot positions in x.
-        y : (m,) array_like
-            Knot positions in y.
-        z : (n, m) array_like
-            Function values on 2D grid.
-
-        Returns
-        -------
-        Mx : (n, m) ndarray
-            Second derivatives with respect to x.
-        My : (n, m) ndarray
-            Second derivatives with respect to y.
-        """
-        n, m = len(x), len(y)
-        Mx = np.zeros((n, m))
-        My = np.zeros((n, m))
-
-        # Compute second derivatives in x-direction (columns)
-        for j in range(m):
-            Mx[:, j] = self.compute_second_derivatives_1d(x, z[:, j])
-
-        # Compute second derivatives in y-direction (rows)
-        for i in range(n):
-            My[i, :] = self.compute_second_derivatives_1d(y, z[i, :])
-
-        return Mx, My
-
-    def evaluate_natural_spline_2d_vectorized(self, x, y, z, Mx, My, xq, yq):
-        """
-        Vectorized 2D natural cubic spline evaluation using second derivatives.
-
-        Parameters
-        ----------
-        x : (n,) array_like
-            Knot positions in x.
-        y : (m,) array_like
-            Knot positions in y.
-        z : (n, m) array_like
-            Function values on 2D grid.
-        Mx : (n, m) array_like
-            Second derivatives w.r.t. x.
-        My : (n, m) array_like
-            Second derivatives w.r.t. y.
-        xq : (p,) array_like
-            Query positions in x.
-        yq : (q,) array_like
-            Query positions in y.
-
-        Returns
-        -------
-        Zq : (p, q) ndarray
-            Interpolated 2D surface values.
-        """
-        xq = np.atleast_1d(xq)
-        yq = np.atleast_1d(yq)
-        nx, ny = len(x), len(y)
-        px, py = len(xq), len(yq)
-
-        xi_idx = np.clip(np.searchsorted(x, xq) - 1, 0, nx - 2)
-        yj_idx = np.clip(np.searchsorted(y, yq) - 1, 0, ny - 2)
-
-        Zq = np.zeros((px, py))
-
-        # Loop over y query points
-        for j in range(py):
-            y0_idx = yj_idx[j]
-            y1_idx = y0_idx + 1
-            hy = y[y1_idx] - y[y0_idx]
-            ay = (y[y1_idx] - yq[j]) / hy
-            by = 1 - ay
-
-            f_y0 = []  # Interpolated values along x at y0
-            f_y1 = []  # Interpolated values along x at y1
-
-            # Loop over x query points
-            for i in range(px):
-                x0_idx = xi_idx[i]
-                x1_idx = x0_idx + 1
-                hx = x[x1_idx] - x[x0_idx]
-                ax = (x[x1_idx] - xq[i]) / hx
-                bx = 1 - ax
-
-                # Values at 4 corners
-                z00 = z[x0_idx, y0_idx]
-                z10 = z[x1_idx, y0_idx]
-                z01 = z[x0_idx, y1_idx]
-                z11 = z[x1_idx, y1_idx]
-
-                Mx00 = Mx[x0_idx, y0_idx]
-                Mx10 = Mx[x1_idx, y0_idx]
-                Mx01 = Mx[x0_idx, y1_idx]
-                Mx11 = Mx[x1_idx, y1_idx]
-
-                # Interpolate in x for both fixed y0 and y1
-                fx0 = (ax**3 * Mx00 + bx**3 * Mx10) * hx / 6 + (
-                    ax * (z00 - Mx00 * hx**2 / 6) + bx * (z10 - Mx10 * hx**2 / 6)
-                )
-                fx1 = (ax**3 * Mx01 + bx**3 * Mx11) * hx / 6 + (
-                    ax * (z01 - Mx01 * hx**2 / 6) + bx * (z11 - Mx11 * hx**2 / 6)
-                )
-
-                f_y0.append(fx0)
-                f_y1.append(fx1)
-
-            # Interpolate final result in y
-            f_y0 = np.array(f_y0)
-            f_y1 = np.array(f_y1)
-
-            # Spline in y using fx0 and fx1
-            My0 = My[xi_idx, y0_idx]
-            My1 = My[xi_idx, y1_idx]
-
-            Zq[:, j] = (ay**3 * My0 + by**3 * My1) * hy / 6 + (
-                ay * (f_y0 - My0 * hy**2 / 6) + by * (f_y1 - My1 * hy**2 / 6)
-            )
-
-        return Zq
-
     def evaluate_2d_cubic_spline(self, x, y, z, xq, yq):
         """
-        Evaluate 2D natural cubic spline at given query points with auto second derivative computation.
+        Evaluate 2D natural cubic spline at given query points.
 
         Parameters
         ----------
@@ -403,11 +240,9 @@ class BayesnModel(SEDModel, CiteClass):
         Zq : (p, q) ndarray
             Interpolated values at query grid.
         """
-        # Automatically compute second derivatives in both directions
-        Mx, My = self.compute_2d_second_derivatives(x, y, z)
-
-        # Evaluate spling using the precomputed derivatives
-        return self.evaluate_natural_spline_2d_vectorized(x, y, z, Mx, My, xq, yq)
+        # Use a tensor product spline: interpolate along y for each knot in x, then along x.
+        rows = CubicSpline(y, z, axis=1, bc_type="natural")(np.atleast_1d(yq))
+        return CubicSpline(x, rows, axis=0, bc_type="natural")(np.atleast_1d(xq))
 
     def mask_by_time(self, times, graph_state=None):
         """Compute a mask for whether a given time is of interest for a given object.
-- 
2.43.0


From 3b251493be7b4ad3c6edb70ea12940b0acd53d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:57 +0000
Subject: [PATCH 073/110] fix: query redback sources at sorted unique times and
 wavelengths

---
 src/lightcurvelynx/models/redback_models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/models/redback_models.py b/src/lightcurvelynx/models/redback_models.py
index 24472f6..e958c67 100644
--- a/src/lightcurvelynx/models/redback_models.py
+++ b/src/lightcurvelynx/models/redback_models.py
@@ -209,7 +209,10 @@ class RedbackWrapperModel(SEDModel, CiteClass):
             return self.compute_sed_with_extrapolation(times, wavelengths, graph_state, **kwargs)
 
         # Query the model and convert the output to nJy.
-        model_flam = rb_result.get_flux_density(shifted_times, wavelengths)
+        # The sncosmo-type sources require sorted, unique query points.
+        query_times, time_inds = np.unique(shifted_times, return_inverse=True)
+        query_waves, wave_inds = np.unique(wavelengths, return_inverse=True)
+        model_flam = rb_result.get_flux_density(query_times, query_waves)[np.ix_(time_inds, wave_inds)]
         model_fnu = flam_to_fnu(
             model_flam,
             wavelengths,
-- 
2.43.0


From e24f3f3f1a042acaaf5e95db53bf40b8cfbf9e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 074/110] fix: extrapolate redback sources outside of their
 wavelength range instead of recursing forever

---
 src/lightcurvelynx/models/redback_models.py | 42 ++++++++++++++++++---
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/lightcurvelynx/models/redback_models.py b/src/lightcurvelynx/models/redback_models.py
index e958c67..4f430bd 100644
--- a/src/lightcurvelynx/models/redback_models.py
+++ b/src/lightcurvelynx/models/redback_models.py
@@ -201,13 +201,43 @@ class RedbackWrapperModel(SEDModel, CiteClass):
             **fn_args,
         )
 
-        # The sncosmo-type source gives an error if the wavelengths are out of bounds, so we
-        # need to use extrapolation if the wavelengths are out of bounds. The function
-        # compute_sed_with_extrapolation() will trim the input wavelengths to be within the model's bounds
-        # and call this function again. So the second call passes this bounds check and does not recurse.
-        if np.any(wavelengths < rb_result.minwave()) or np.any(wavelengths > rb_result.maxwave()):
-            return self.compute_sed_with_extrapolation(times, wavelengths, graph_state, **kwargs)
+        # The sncosmo-type source gives an error if the wavelengths are out of bounds. The source's bounds
+        # depend on the parameters and times, so they are not the (infinite) bounds of this model and
+        # we need to trim the wavelengths and extrapolate here.
+        min_wave, max_wave = rb_result.minwave(), rb_result.maxwave()
+        before_mask = wavelengths < min_wave
+        after_mask = wavelengths > max_wave
+        if np.any(before_mask) or np.any(after_mask):
+            flux_density = np.zeros((len(times), len(wavelengths)))
+            in_range = ~before_mask & ~after_mask
+            if np.any(in_range):
+                in_range_waves = wavelengths[in_range]
+                flux_density[:, in_range] = self._query_source(rb_result, shifted_times, in_range_waves)
+            if self.wave_extrapolation is not None:
+                for edge, mask in ((min_wave, before_mask), (max_wave, after_mask)):
+                    if np.any(mask):
+                        edge_flux = self._query_source(rb_result, shifted_times, np.array([edge]))[:, 0]
+                        flux_density[:, mask] = self.wave_extrapolation(edge, edge_flux, wavelengths[mask])
+            return flux_density
+        return self._query_source(rb_result, shifted_times, wavelengths)
+
+    def _query_source(self, rb_result, shifted_times, wavelengths):
+        """Query a redback source at wavelengths within its bounds.
 
+        Parameters
+        ----------
+        rb_result : RedbackTimeSeriesSource
+            The sncosmo-type source.
+        shifted_times : numpy.ndarray
+            A length T array of times relative to t0.
+        wavelengths : numpy.ndarray
+            A length N array of wavelengths (in angstroms).
+
+        Returns
+        -------
+        model_fnu : numpy.ndarray
+            A length T x N matrix of SED values (in nJy).
+        """
         # Query the model and convert the output to nJy.
         # The sncosmo-type sources require sorted, unique query points.
         query_times, time_inds = np.unique(shifted_times, return_inverse=True)
-- 
2.43.0


From cb67da408fcc99202b24f1a40c8d86cfee28473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 075/110] fix: apply no time window to samples without a t0

---
 src/lightcurvelynx/simulate.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index f3312e8..35b4db8 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -42,8 +42,14 @@ def get_time_windows(t0, time_window_offset):
     # If t0 is a scalar apply the offset directly.
     if np.isscalar(t0):
         t0 = np.array([t0])
-    start_times = t0 - before if before is not None else None
-    end_times = t0 + after if after is not None else None
+
+    # Samples without a t0 (None) do not have a time window.
+    has_t0 = np.array([value is not None for value in t0])
+    if not np.any(has_t0):
+        return None, None
+    t0 = np.where(has_t0, t0, 0.0).astype(float)
+    start_times = np.where(has_t0, t0 - before, -np.inf) if before is not None else None
+    end_times = np.where(has_t0, t0 + after, np.inf) if after is not None else None
 
     return start_times, end_times
 
-- 
2.43.0


From 10dd1a2d7f9016c9dcdc6fa1f894e4ea0d11cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 076/110] fix: save array valued parameters of a single sample

---
 src/lightcurvelynx/simulate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 35b4db8..c6ff45a 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -152,7 +152,9 @@ def simulate_lightcurves(
                     f"Parameter column {col} not found in model parameters. "
                     f"Available parameters are: {sample_states.get_all_params_names()}."
                 )
-            results_dict[col.replace(".", "_")] = np.atleast_1d(sample_states[col]).tolist()
+            # A single sample is stored without the sample dimension (the value may be an array itself).
+            values = [sample_states[col]] if num_samples == 1 else sample_states[col]
+            results_dict[col.replace(".", "_")] = np.asarray(values).tolist()
 
     # Set up the nested array for the per-observation data, including ObsTable information.
     nested_index = []
-- 
2.43.0


From e0d04fa40129159698795774b82f4d973714114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:39 +0000
Subject: [PATCH 077/110] fix: accept integer phases for noise free light
 curves

---
 src/lightcurvelynx/simulate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index c6ff45a..a38190d 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -289,6 +289,7 @@ def compute_single_noise_free_lightcurve(
 
     # Generate the rest-frame times at which to evaluate the light curve.
     rest_phase = np.arange(rest_frame_phase_min, rest_frame_phase_max, step=rest_frame_phase_step)
+    rest_phase = rest_phase.astype(float)  # integer limits give integers
     times = rest_phase.copy()
 
     # Compute the observed-frame times (MJD) if needed.
-- 
2.43.0


From fd110c477f01283589888d38af05243d825cf925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:40 +0000
Subject: [PATCH 078/110] fix: exclude the end of the phase grid for every step

---
 src/lightcurvelynx/simulate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index a38190d..7eb8617 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -290,6 +290,7 @@ def compute_single_noise_free_lightcurve(
     # Generate the rest-frame times at which to evaluate the light curve.
     rest_phase = np.arange(rest_frame_phase_min, rest_frame_phase_max, step=rest_frame_phase_step)
     rest_phase = rest_phase.astype(float)  # integer limits give integers
+    rest_phase = rest_phase[rest_phase < rest_frame_phase_max]  # arange can overshoot by a rounding error
     times = rest_phase.copy()
 
     # Compute the observed-frame times (MJD) if needed.
-- 
2.43.0


From f0225d35c1aa86199f56d03c8c1cdbf43884895d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:40 +0000
Subject: [PATCH 079/110] fix: apply negative redshifts to the observed times
 of noise free light curves

---
 src/lightcurvelynx/simulate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 7eb8617..38d793f 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -295,7 +295,7 @@ def compute_single_noise_free_lightcurve(
 
     # Compute the observed-frame times (MJD) if needed.
     redshift = model.get_param(graph_state, "redshift")
-    if redshift is not None and redshift > 0:
+    if redshift is not None:
         times = times * (1 + redshift)
 
     t0 = model.get_param(graph_state, "t0")
-- 
2.43.0


From 618d0cedc7bec3d6d6975d0260adbdab23eda4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:24 +0000
Subject: [PATCH 080/110] fix: do not compare undefined signal-to-noise ratios
 with the threshold

---
 src/lightcurvelynx/utils/post_process_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 8092744..3387dcb 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -144,7 +144,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
     # Compute SNR and detection flag.
     snr = lightcurve_compute_snr(flux, fluxerr)
     results["lightcurve.snr"] = snr
-    results["lightcurve.detection"] = [(x is not None and x >= min_snr) for x in snr]
+    results["lightcurve.detection"] = [(x is not ma.masked and x >= min_snr) for x in snr]
 
     # Compute magnitude and magnitude error.
     mag, magerr = lightcurve_compute_mag(flux, fluxerr)
-- 
2.43.0


From 8ac7ea521684de5dc2efad356071828b03cbbca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:24 +0000
Subject: [PATCH 081/110] fix: use each light curve's own reference time for
 relative times

---
 src/lightcurvelynx/utils/post_process_results.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 3387dcb..eab8595 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -156,8 +156,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
         if "mjd" not in results["lightcurve"].nest.fields:
             raise ValueError("lightcurve.mjd must be present in the DataFrame.")
 
-        # Get the index for the t0 entry for each lightcurve MJD and use that
+        # Repeat each t0 for every observation of its own lightcurve and use that
         # to subtract out the reference t0.
-        t0 = np.asanyarray(results["t0"])
-        t0_idx = np.array(results["lightcurve"]["mjd"].index)
-        results["lightcurve.time_rel"] = results["lightcurve.mjd"] - t0[t0_idx]
+        t0 = np.repeat(np.asanyarray(results["t0"]), results["lightcurve"].nest.list_lengths)
+        results["lightcurve.time_rel"] = results["lightcurve.mjd"] - t0
-- 
2.43.0


From 8649f542bf2b91d7965112ee159ffc5bd415209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:24 +0000
Subject: [PATCH 082/110] fix: compute relative times for a reference time of
 zero

---
 src/lightcurvelynx/utils/post_process_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index eab8595..77ea641 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -152,7 +152,7 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
     results["lightcurve.magerr"] = magerr
 
     # If t0 is provided as a column in results, compute relative time.
-    if "t0" in results.columns and np.all(results["t0"]) and results["t0"].notna().all():
+    if "t0" in results.columns and results["t0"].notna().all():
         if "mjd" not in results["lightcurve"].nest.fields:
             raise ValueError("lightcurve.mjd must be present in the DataFrame.")
 
-- 
2.43.0


From ae090d63cd862d3a5827e019c709ab90448c4d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:01 +0000
Subject: [PATCH 083/110] fix: results_drop_empty also drops light curves
 stored as empty tables

---
 src/lightcurvelynx/utils/post_process_results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 77ea641..f60bbca 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -21,7 +21,8 @@ def results_drop_empty(results):
     nested_pandas.NestedFrame
         The DataFrame with empty lightcurves removed.
     """
-    return results.dropna(subset=["lightcurve"])
+    # An empty light curve may be stored as either a missing value or a table with no rows.
+    return results.loc[results["lightcurve"].nest.list_lengths > 0]
 
 
 def lightcurve_compute_snr(flux, fluxerr):
-- 
2.43.0


From be5c07be2817eb110a083edadedda22591ce98f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:31 +0000
Subject: [PATCH 084/110] fix: compute relative times for objects with a t0
 when others have none

---
 src/lightcurvelynx/utils/post_process_results.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index f60bbca..27cb2bb 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -153,11 +153,13 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
     results["lightcurve.magerr"] = magerr
 
     # If t0 is provided as a column in results, compute relative time.
-    if "t0" in results.columns and results["t0"].notna().all():
+    # Objects without a t0 get missing values.
+    if "t0" in results.columns and results["t0"].notna().any():
         if "mjd" not in results["lightcurve"].nest.fields:
             raise ValueError("lightcurve.mjd must be present in the DataFrame.")
 
         # Repeat each t0 for every observation of its own lightcurve and use that
         # to subtract out the reference t0.
-        t0 = np.repeat(np.asanyarray(results["t0"]), results["lightcurve"].nest.list_lengths)
+        t0 = results["t0"].to_numpy(dtype=float, na_value=np.nan)
+        t0 = np.repeat(t0, results["lightcurve"].nest.list_lengths)
         results["lightcurve.time_rel"] = results["lightcurve.mjd"] - t0
-- 
2.43.0


From 3bcc2bd6bc9df1eb3d0c61bc786c3501c76b9655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:47 +0000
Subject: [PATCH 085/110] fix: assign relative times by position for tables
 with repeated row labels

---
 src/lightcurvelynx/utils/post_process_results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/post_process_results.py b/src/lightcurvelynx/utils/post_process_results.py
index 27cb2bb..f4676d7 100644
--- a/src/lightcurvelynx/utils/post_process_results.py
+++ b/src/lightcurvelynx/utils/post_process_results.py
@@ -162,4 +162,5 @@ def results_augment_lightcurves(results, *, min_snr=0.0):
         # to subtract out the reference t0.
         t0 = results["t0"].to_numpy(dtype=float, na_value=np.nan)
         t0 = np.repeat(t0, results["lightcurve"].nest.list_lengths)
-        results["lightcurve.time_rel"] = results["lightcurve.mjd"] - t0
+        # Assign by position (as an array), because the row labels may not be unique.
+        results["lightcurve.time_rel"] = np.asarray(results["lightcurve.mjd"] - t0)
-- 
2.43.0


From 51fe3b488d35b2b665bb9e33c8570047909c5d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 086/110] fix: mag2flux accepts any array-like, as flux2mag
 does

---
 src/lightcurvelynx/astro_utils/mag_flux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/astro_utils/mag_flux.py b/src/lightcurvelynx/astro_utils/mag_flux.py
index d0698fa..3495318 100644
--- a/src/lightcurvelynx/astro_utils/mag_flux.py
+++ b/src/lightcurvelynx/astro_utils/mag_flux.py
@@ -20,7 +20,7 @@ def mag2flux(mag: npt.ArrayLike) -> npt.ArrayLike:
     bandflux : ndarray of float
         The bandflux corresponding to the input magnitude.
     """
-    return np.power(10.0, -0.4 * (mag - MAG_AB_ZP_NJY))
+    return np.power(10.0, -0.4 * np.subtract(mag, MAG_AB_ZP_NJY))
 
 
 def flux2mag(flux_njy: npt.ArrayLike) -> npt.ArrayLike:
-- 
2.43.0


From 4eeff3d59b4dc2472ca416540308bd7944865b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 087/110] fix: convert small-integer wavelengths without
 overflow

---
 src/lightcurvelynx/astro_utils/unit_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/unit_utils.py b/src/lightcurvelynx/astro_utils/unit_utils.py
index 9944624..7733323 100644
--- a/src/lightcurvelynx/astro_utils/unit_utils.py
+++ b/src/lightcurvelynx/astro_utils/unit_utils.py
@@ -48,7 +48,7 @@ def flam_to_fnu(flux_flam, wavelengths, *, wave_unit, flam_unit, fnu_unit):
         The flux values in fnu units.
     """
     flux_flam = np.asarray(flux_flam)
-    wavelengths = np.asarray(wavelengths)
+    wavelengths = np.asarray(wavelengths, dtype=float)
 
     # Check if we need to reshape wavelengths to match the number
     # of rows in flux_flam.
@@ -95,7 +95,7 @@ def fnu_to_flam(flux_fnu, wavelengths, *, wave_unit, flam_unit, fnu_unit):
         The flux values in flam units.
     """
     flux_fnu = np.asarray(flux_fnu)
-    wavelengths = np.asarray(wavelengths)
+    wavelengths = np.asarray(wavelengths, dtype=float)
 
     # Check if we need to reshape wavelengths to match the number
     # of rows in flux_fnu.
-- 
2.43.0


From 608a9436c8ab0e8608f013af73388a15a90cd36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 088/110] fix: read_numpy_data reads the .dat files
 write_numpy_data writes

---
 src/lightcurvelynx/utils/io_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 17891b5..6136345 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -8,7 +8,7 @@ from astropy.table import Table
 
 def read_numpy_data(file_path):
     """Read in a numpy array from different formats depending on the file extension.
-    Automatically detects and handles files in .npy, .npz, .csv, .ecsv, and .txt
+    Automatically detects and handles files in .npy, .npz, .csv, .ecsv, .txt, and .dat
     formats.
 
     Parameters
@@ -33,7 +33,7 @@ def read_numpy_data(file_path):
         data = np.load(file_path)["arr_0"]
     elif file_path.suffix in [".csv", ".ecsv"]:
         data = np.loadtxt(file_path, delimiter=",", comments="#")
-    elif file_path.suffix in [".txt"]:
+    elif file_path.suffix in [".txt", ".dat"]:
         data = np.loadtxt(file_path, comments="#")
     else:
         raise ValueError(f"Unsupported file format: {file_path.suffix}.")
@@ -43,7 +43,7 @@ def read_numpy_data(file_path):
 
 def write_numpy_data(file_path, data):
     """Write a numpy array to a file in a format determined by the file extension.
-    Automatically detects and handles files in .npy, .npz, .csv, .ecsv, and .txt
+    Automatically detects and handles files in .npy, .npz, .csv, .ecsv, .txt, and .dat
     formats.
 
     Parameters
-- 
2.43.0


From 143090ac0225d011d44841cd1d3ae46464ef43ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:58 +0000
Subject: [PATCH 089/110] fix: read_grid_data reads fits files

---
 src/lightcurvelynx/utils/io_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 6136345..4e9a7ab 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -103,7 +103,9 @@ def read_grid_data(input_file, format="ascii", validate=False):
     if not Path(input_file).is_file():
         raise FileNotFoundError(f"File {input_file} not found.")
 
-    data = Table.read(input_file, format=format, comment=r"\s*#")
+    # Only the text formats have comments.
+    kwargs = {} if format == "fits" else {"comment": r"\s*#"}
+    data = Table.read(input_file, format=format, **kwargs)
     if len(data.colnames) != 3:
         raise ValueError(
             f"Incorrect format for grid data in {input_file} with format {format}. "
-- 
2.43.0


From 50f0378ecf6c2cf9e6cd63fdc76c9a730136223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:09 +0000
Subject: [PATCH 090/110] fix: refuse missing or non-numeric grid entries and
 return float grids

---
 src/lightcurvelynx/utils/io_utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 4e9a7ab..c00cd52 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -115,6 +115,14 @@ def read_grid_data(input_file, format="ascii", validate=False):
     x1_col = data.colnames[1]
     v_col = data.colnames[2]
 
+    # All entries must be given and be numbers.
+    for col in data.colnames:
+        if np.any(np.ma.getmaskarray(data[col].data)):
+            raise ValueError(f"Missing values in column {col} of {input_file} with format {format}.")
+        if not np.issubdtype(data[col].dtype, np.number):
+            raise ValueError(f"Non-numeric values in column {col} of {input_file} with format {format}.")
+        data[col] = np.asarray(data[col].data, dtype=float)
+
     # Get the values along the x0 and x1 dimensions.
     x0 = np.sort(np.unique(data[x0_col].data))
     x1 = np.sort(np.unique(data[x1_col].data))
-- 
2.43.0


From 7e340e16d7f050cd5f8cf4b0a01c6f9babb164b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:18 +0000
Subject: [PATCH 091/110] fix: store each grid value at its own coordinates

---
 src/lightcurvelynx/utils/io_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index c00cd52..e1f4166 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -152,8 +152,13 @@ def read_grid_data(input_file, format="ascii", validate=False):
                     )
                 counter += 1
 
-    # Build the values matrix.
-    values = data[v_col].data.reshape((len(x0), len(x1)))
+    # Build the values matrix, storing each value at its own coordinates.
+    index0 = np.searchsorted(x0, data[x0_col].data)
+    index1 = np.searchsorted(x1, data[x1_col].data)
+    if len(np.unique(index0 * len(x1) + index1)) != len(data):
+        raise ValueError(f"Repeated grid coordinates in {input_file} with format {format}.")
+    values = np.empty((len(x0), len(x1)))
+    values[index0, index1] = data[v_col].data
 
     return x0, x1, values
 
-- 
2.43.0


From feeaf88328052a4eb78b9bd0df2090bfe1ecd06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:59 +0000
Subject: [PATCH 092/110] fix: keep the keys of LCLIB events apart

---
 src/lightcurvelynx/utils/io_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index e1f4166..a51b1ef 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -178,7 +178,8 @@ def _read_lclib_data_from_open_file(input_file):
     """
     colnames = []
     curves = []
-    meta = {}
+    header = {}  # File-level keys, shared by all the events
+    meta = header  # Where to store the keys: the current event or, between events, the header
     current_model = {}
     parnames = []
     in_doc_block = False
@@ -217,6 +218,7 @@ def _read_lclib_data_from_open_file(input_file):
 
             # Save the table we have so far.
             curves.append(Table(current_model, meta=meta))
+            meta = header
         elif key == "START_EVENT":
             if len(colnames) == 0:
                 raise ValueError(f"Error on line= {l_num}: No filters defined.")
@@ -225,7 +227,8 @@ def _read_lclib_data_from_open_file(input_file):
             current_model["type"] = []  # Initialize the type list.
             for col in colnames:
                 current_model[col] = []
-            meta["id"] = value
+            # Each event has the header's keys and its own.
+            meta = {**header, "id": value}
         elif key == "S" or key == "T":
             # Save an observation or template to the current light curve.
             current_model["type"].append(key)  # Get the type from the key.
-- 
2.43.0


From 673370224335285799304f6c228acb5e2cffb32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:29 +0000
Subject: [PATCH 093/110] fix: refuse LCLIB files with unfinished or nested
 events

---
 src/lightcurvelynx/utils/io_utils.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index a51b1ef..502fecc 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -183,6 +183,7 @@ def _read_lclib_data_from_open_file(input_file):
     current_model = {}
     parnames = []
     in_doc_block = False
+    in_event = False
 
     for l_num, line in enumerate(input_file):
         # Strip out the trailing comment. Then skip lines that are either
@@ -212,16 +213,27 @@ def _read_lclib_data_from_open_file(input_file):
             for c in value:
                 colnames.append(c)
         elif key == "END_EVENT":
+            if not in_event:
+                raise ValueError(f"Error on line={l_num}: END_EVENT without START_EVENT.")
             curr_id = meta.get("id", "")
             if curr_id != value:
                 raise ValueError(f"Event ID mismatch (line {l_num}): found {value}, expected {curr_id}.")
 
+            # Check that no rows are missing if the event states their number.
+            num_rows = len(current_model["type"])
+            if meta.get("NROW") and int(meta["NROW"].split()[0]) != num_rows:
+                raise ValueError(f"Expected {meta['NROW']} rows for event {value}, but found {num_rows}.")
+
             # Save the table we have so far.
             curves.append(Table(current_model, meta=meta))
             meta = header
+            in_event = False
         elif key == "START_EVENT":
             if len(colnames) == 0:
                 raise ValueError(f"Error on line= {l_num}: No filters defined.")
+            if in_event:
+                raise ValueError(f"Error on line={l_num}: START_EVENT before the end of event {meta['id']}.")
+            in_event = True
 
             # Start a new light curve, but resetting the lists of data from the columns.
             current_model["type"] = []  # Initialize the type list.
@@ -231,6 +243,8 @@ def _read_lclib_data_from_open_file(input_file):
             meta = {**header, "id": value}
         elif key == "S" or key == "T":
             # Save an observation or template to the current light curve.
+            if not in_event:
+                raise ValueError(f"Error on line={l_num}: Observation outside of an event.")
             current_model["type"].append(key)  # Get the type from the key.
 
             # Get the time and magnitudes from the columns.
@@ -254,6 +268,10 @@ def _read_lclib_data_from_open_file(input_file):
             # Save everything else to the meta dictionary.
             meta[key] = value
 
+    if in_event:
+        raise ValueError(f"Reached the end of the file before the end of event {meta['id']}.")
+    if in_doc_block:
+        raise ValueError("Reached the end of the file before the end of the documentation.")
     return curves
 
 
-- 
2.43.0


From 8b3dcdf2c9d55655d0973532df26a12d29f94fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:44 +0000
Subject: [PATCH 094/110] fix: strip blanks around LCLIB parameter names and
 values

---
 src/lightcurvelynx/utils/io_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 502fecc..4ab0ad3 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -254,10 +254,10 @@ def _read_lclib_data_from_open_file(input_file):
             for col_idx, col in enumerate(colnames):
                 current_model[col].append(float(col_vals[col_idx]))
         elif key == "MODEL_PARNAMES" or key == "MODEL_PARAMETERS":
-            parnames = value.split(",")
+            parnames = [name.strip() for name in value.split(",")]
         elif key == "PARVAL":
             if "," in value:
-                all_vals = value.split(",")
+                all_vals = [val.strip() for val in value.split(",")]
             else:
                 all_vals = value.split()
 
-- 
2.43.0


From b310b4c9e5d43a10f639bcd1ed91028c31e8be56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:58 +0000
Subject: [PATCH 095/110] fix: refuse non-finite grid coordinates

---
 src/lightcurvelynx/utils/io_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightcurvelynx/utils/io_utils.py b/src/lightcurvelynx/utils/io_utils.py
index 4ab0ad3..ae19def 100644
--- a/src/lightcurvelynx/utils/io_utils.py
+++ b/src/lightcurvelynx/utils/io_utils.py
@@ -123,6 +123,10 @@ def read_grid_data(input_file, format="ascii", validate=False):
             raise ValueError(f"Non-numeric values in column {col} of {input_file} with format {format}.")
         data[col] = np.asarray(data[col].data, dtype=float)
 
+    # The grid coordinates themselves must be finite.
+    if not np.all(np.isfinite(data[x0_col].data)) or not np.all(np.isfinite(data[x1_col].data)):
+        raise ValueError(f"Non-finite grid coordinates in {input_file} with format {format}.")
+
     # Get the values along the x0 and x1 dimensions.
     x0 = np.sort(np.unique(data[x0_col].data))
     x1 = np.sort(np.unique(data[x1_col].data))
-- 
2.43.0


From 66d580496a8bb6184212c165320277de1582a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:47 +0000
Subject: [PATCH 096/110] fix: searches use the new positions after add_column
 overwrites ra or dec

---
 src/lightcurvelynx/obstable/obs_table.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 1b42cbb..6831a28 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -382,6 +382,10 @@ class ObsTable:
             values = np.full((len(self._table)), values)
         self._table[colname] = values
 
+        # Searches must use the new pointings.
+        if colname in ("ra", "dec"):
+            self._build_kd_tree()
+
     def write_db(self, filename, *, tablename="observations", overwrite=False):
         """Write out the observation table as a database to a given SQL table.
 
-- 
2.43.0


From 9d6e0a75a826b1ee07831c2181658218fba9149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:16 +0000
Subject: [PATCH 097/110] fix: the filters of a survey follow add_column
 overwriting the filter column

---
 src/lightcurvelynx/obstable/obs_table.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 6831a28..3959b02 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -382,9 +382,11 @@ class ObsTable:
             values = np.full((len(self._table)), values)
         self._table[colname] = values
 
-        # Searches must use the new pointings.
+        # Searches must use the new pointings, and the set of filters the new filters.
         if colname in ("ra", "dec"):
             self._build_kd_tree()
+        elif colname == "filter":
+            self.filters = np.unique(self._table["filter"])
 
     def write_db(self, filename, *, tablename="observations", overwrite=False):
         """Write out the observation table as a database to a given SQL table.
-- 
2.43.0


From 481b93a793ec5f63540d8277f88745ed7a89bab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:05 +0000
Subject: [PATCH 098/110] fix: Bicubic axes in small units are not taken as
 regular

---
 src/lightcurvelynx/utils/bicubic_interp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/bicubic_interp.py b/src/lightcurvelynx/utils/bicubic_interp.py
index 8f8a868..750de33 100644
--- a/src/lightcurvelynx/utils/bicubic_interp.py
+++ b/src/lightcurvelynx/utils/bicubic_interp.py
@@ -300,7 +300,8 @@ class BicubicAxis:
         step_sizes = self.values[1:] - self.values[:-1]
         min_step = jnp.min(step_sizes)
         max_step = jnp.max(step_sizes)
-        if max_step - min_step > 1e-6:
+        # The tolerance also shrinks with the step, so axes in small units are not taken as regular.
+        if max_step - min_step > min(1e-6, 1e-5 * max_step):
             self.regular_steps = False
             self.step_size = None
             self._initial_search = self._search_nonregular
-- 
2.43.0


From e0b94c781276cba8b53499b7902d6fa94a60f76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:25 +0000
Subject: [PATCH 099/110] fix: database files are opened whatever characters
 their name holds

---
 src/lightcurvelynx/obstable/obs_table.py    | 2 +-
 src/lightcurvelynx/obstable/ztf_obstable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 3959b02..5fbbcd9 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -272,7 +272,7 @@ class ObsTable:
         """
         if not Path(filename).is_file():
             raise FileNotFoundError(f"db file {filename} not found.")
-        con = sqlite3.connect(f"file:{filename}?mode=ro", uri=True)
+        con = sqlite3.connect(f"{Path(filename).absolute().as_uri()}?mode=ro", uri=True)
 
         # Read the table.
         try:
diff --git a/src/lightcurvelynx/obstable/ztf_obstable.py b/src/lightcurvelynx/obstable/ztf_obstable.py
index cb81966..bbfe3a1 100644
--- a/src/lightcurvelynx/obstable/ztf_obstable.py
+++ b/src/lightcurvelynx/obstable/ztf_obstable.py
@@ -143,7 +143,7 @@ class ZTFObsTable(ObsTable):
 
         if not Path(filename).is_file():
             raise FileNotFoundError(f"ObsTable file {filename} not found.")
-        con = sqlite3.connect(f"file:{filename}?mode=ro", uri=True)
+        con = sqlite3.connect(f"{Path(filename).absolute().as_uri()}?mode=ro", uri=True)
 
         # Read the table.
         try:
-- 
2.43.0


From 0f24fac67a1db6a348f2f8d80c7516d7982ccf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:44 +0000
Subject: [PATCH 100/110] fix: force_download refreshes an existing file

---
 src/lightcurvelynx/utils/data_download.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/lightcurvelynx/utils/data_download.py b/src/lightcurvelynx/utils/data_download.py
index 1f805ba..4f0c802 100644
--- a/src/lightcurvelynx/utils/data_download.py
+++ b/src/lightcurvelynx/utils/data_download.py
@@ -1,6 +1,8 @@
 """Basic functions for downloading data using pooch."""
 
 import logging
+import os
+import tempfile
 from pathlib import Path
 
 import pooch
@@ -39,6 +41,22 @@ def download_data_file_if_needed(data_path, data_url, force_download=False):
     # Create the directory in which to save the file if it does not already exist.
     data_path.parent.mkdir(parents=True, exist_ok=True)
 
+    # Pooch does not download over an existing file (without a known hash), so download
+    # to a temporary directory and only replace the file once the download has succeeded.
+    if data_path.exists():
+        with tempfile.TemporaryDirectory(dir=data_path.parent) as tmp_dir:
+            full_path = pooch.retrieve(
+                url=data_url,
+                known_hash=None,
+                fname=data_path.name,
+                path=Path(tmp_dir),
+            )
+            if full_path is None or not Path(full_path).exists():
+                logger.error(f"Transmission table not downloaded from {data_url}.")
+                return False
+            os.replace(full_path, data_path)
+        return True
+
     # Use pooch to download the data files and extract them to the data directory.
     full_path = pooch.retrieve(
         url=data_url,
-- 
2.43.0


From 05569af770fbeccf11e4ede68c17aa5fc210568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:28 +0000
Subject: [PATCH 101/110] fix: light curves without filter names are plotted

---
 src/lightcurvelynx/utils/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/utils/plotting.py b/src/lightcurvelynx/utils/plotting.py
index df6ccb1..4c5ef13 100644
--- a/src/lightcurvelynx/utils/plotting.py
+++ b/src/lightcurvelynx/utils/plotting.py
@@ -66,8 +66,8 @@ def plot_lightcurves(
 
     # Set up a list of filters to display.
     if filters is None:
-        filters = ["none"] * num_pts
-        unique_filters = set(["None"])
+        filters = np.full(num_pts, "None")
+        unique_filters = ["None"]
     elif len(filters) == num_pts:
         filters = np.asarray(filters)
         unique_filters = np.unique(filters)
-- 
2.43.0


From 08fbd263613e959cf6f94961339e8753e790911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:28 +0000
Subject: [PATCH 102/110] fix: light curves in more than seven filters are
 plotted

---
 src/lightcurvelynx/utils/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/utils/plotting.py b/src/lightcurvelynx/utils/plotting.py
index 4c5ef13..7dc2436 100644
--- a/src/lightcurvelynx/utils/plotting.py
+++ b/src/lightcurvelynx/utils/plotting.py
@@ -82,7 +82,7 @@ def plot_lightcurves(
         colormap = {}
         colors = "bgrcmyk"
         for i, f in enumerate(unique_filters):
-            colormap[f] = colors[i]
+            colormap[f] = colors[i % len(colors)]
 
     # Plot the data with one line for each filter.
     for filter in unique_filters:
-- 
2.43.0


From 9f7ca1ff84f03face39e3c1e763dd0347460bade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:46 +0000
Subject: [PATCH 103/110] fix: footprint plots show the outline and all points

---
 src/lightcurvelynx/astro_utils/detector_footprint.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/detector_footprint.py b/src/lightcurvelynx/astro_utils/detector_footprint.py
index 8080ca7..8a9b32d 100644
--- a/src/lightcurvelynx/astro_utils/detector_footprint.py
+++ b/src/lightcurvelynx/astro_utils/detector_footprint.py
@@ -291,13 +291,13 @@ class DetectorFootprint:
             ax.legend()
 
             # Adjust the bounding box to include all the points.
-            if xmin < pixel_x.min():
+            if xmin > pixel_x.min():
                 xmin = pixel_x.min() - 2.0
-            if xmax > pixel_x.max():
+            if xmax < pixel_x.max():
                 xmax = pixel_x.max() + 2.0
-            if ymin < pixel_y.min():
+            if ymin > pixel_y.min():
                 ymin = pixel_y.min() - 2.0
-            if ymax > pixel_y.max():
+            if ymax < pixel_y.max():
                 ymax = pixel_y.max() + 2.0
 
         ax.set_title("Detector Footprint")
-- 
2.43.0


From 3a4bbb0f23cbf2fc1ce0237861a05f9f4db72d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:09 +0000
Subject: [PATCH 104/110] fix: a passband can be asked for by both of its names

---
 src/lightcurvelynx/astro_utils/passbands.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/passbands.py b/src/lightcurvelynx/astro_utils/passbands.py
index a0e0857..664ddf7 100644
--- a/src/lightcurvelynx/astro_utils/passbands.py
+++ b/src/lightcurvelynx/astro_utils/passbands.py
@@ -111,12 +111,10 @@ class PassbandGroup:
             all_bands = list(self.passbands.keys())
 
             for pb_name in all_bands:
-                pb_obj = self.passbands[pb_name]
-                if pb_name in filters:
-                    filters_remaining.discard(pb_name)
-                elif pb_obj.filter_name in filters:
-                    filters_remaining.discard(pb_obj.filter_name)
-                else:
+                # The passband may be listed by both names (also if one is another passband's name).
+                matches = filters & {pb_name, self.passbands[pb_name].filter_name}
+                filters_remaining -= matches
+                if not matches:
                     del self.passbands[pb_name]
 
             if len(filters_remaining) != 0:
-- 
2.43.0


From eda6475a3b3bb0ff10fc87740cf890b0393c5a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:19 +0000
Subject: [PATCH 105/110] fix: the values of the parts of composite sources can
 be differentiated

---
 .../models/multi_object_model.py              | 26 +++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/lightcurvelynx/models/multi_object_model.py b/src/lightcurvelynx/models/multi_object_model.py
index 6937cd1..36f5ab2 100644
--- a/src/lightcurvelynx/models/multi_object_model.py
+++ b/src/lightcurvelynx/models/multi_object_model.py
@@ -170,6 +170,32 @@ class MultiObjectModel(SEDModel):
         for object in self.objects:
             object._dependency_graph_helper(dependency_graph)
 
+    def build_pytree(self, graph_state, partial=None):
+        """Build a JAX PyTree representation of the variables in this graph (including
+        those of all the objects).
+
+        Parameters
+        ----------
+        graph_state : dict
+            A dictionary of dictionaries mapping node->hash, variable_name to value.
+            This data structure is modified in place to represent the current state.
+        partial : dict
+            The partial results so far. This is modified in place by the function.
+            A dictionary mapping node name to a dictionary mapping each variable's name
+            to its value.
+            Default: None
+
+        Returns
+        -------
+        values : dict
+            A dictionary mapping node name to a dictionary mapping each variable's name
+            to its value.
+        """
+        partial = super().build_pytree(graph_state, partial)
+        for object in self.objects:
+            partial = object.build_pytree(graph_state, partial)
+        return partial
+
     def _evaluate_single(self, times, wavelengths, state, rng_info=None, **kwargs):
         """Evaluate the model and apply the effects for a single, given graph state.
         This function applies redshift, computes the flux density for the object,
-- 
2.43.0


From d9211045f832da4546b20792b2f7f7ec2439fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:36 +0000
Subject: [PATCH 106/110] fix: sample from a range given by a numpy integer

---
 src/lightcurvelynx/math_nodes/given_sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/math_nodes/given_sampler.py b/src/lightcurvelynx/math_nodes/given_sampler.py
index bd225c0..604b3a4 100644
--- a/src/lightcurvelynx/math_nodes/given_sampler.py
+++ b/src/lightcurvelynx/math_nodes/given_sampler.py
@@ -3,6 +3,8 @@ can be used in testing to produce known results or to use data previously
 sampled from another method (such as pzflow).
 """
 
+from numbers import Integral
+
 import numpy as np
 import pandas as pd
 from astropy.table import Table
@@ -140,7 +142,7 @@ class GivenValueSampler(NumpyRandomFunc):
     """
 
     def __init__(self, values, weights=None, seed=None, **kwargs):
-        if isinstance(values, int):
+        if isinstance(values, Integral):
             values = np.arange(values)
         self.values = np.asarray(values)
 
-- 
2.43.0


From 29b2925ed687e1b1144938ed9ff4ec1c34288a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:36 +0000
Subject: [PATCH 107/110] fix: accept whole numbers as constants of the
 cosmology

---
 src/lightcurvelynx/astro_utils/snia_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/astro_utils/snia_utils.py b/src/lightcurvelynx/astro_utils/snia_utils.py
index cbec77c..c3835b7 100644
--- a/src/lightcurvelynx/astro_utils/snia_utils.py
+++ b/src/lightcurvelynx/astro_utils/snia_utils.py
@@ -1,3 +1,5 @@
+from numbers import Real
+
 import astropy.units as u
 import numpy as np
 import scipy.integrate as integrate
@@ -299,7 +301,7 @@ class DistModFromRedshift(FunctionNode):
 
     def __init__(self, redshift, H0=73.0, Omega_m=0.3, **kwargs):
         # Create the cosmology once for this node.
-        if not isinstance(H0, float) or not isinstance(Omega_m, float):
+        if not isinstance(H0, Real) or not isinstance(Omega_m, Real):
             raise ValueError("H0 and Omega_m must be constants.")
         self.cosmo = FlatLambdaCDM(H0=H0, Om0=Omega_m)
 
@@ -353,7 +355,7 @@ class SNCoordGivenPhysicalSep(FunctionNode):
         self, host_ra, host_dec, physical_sep_kpc, redshift, H0=73.0, Omega_m=0.3, seed=None, **kwargs
     ):
         # Create the cosmology once for this node.
-        if not isinstance(H0, float) or not isinstance(Omega_m, float):
+        if not isinstance(H0, Real) or not isinstance(Omega_m, Real):
             raise ValueError("H0 and Omega_m must be constants.")
         self.cosmo = FlatLambdaCDM(H0=H0, Om0=Omega_m)
         self._rng = np.random.default_rng(seed)
-- 
2.43.0


From febae24d7b915faf04928e15579f24675f6c281c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:36 +0000
Subject: [PATCH 108/110] fix: accept numpy numbers as survey values

---
 src/lightcurvelynx/obstable/fake_obs_table.py | 4 +++-
 src/lightcurvelynx/obstable/obs_table.py      | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lightcurvelynx/obstable/fake_obs_table.py b/src/lightcurvelynx/obstable/fake_obs_table.py
index 57acaf3..2e395f4 100644
--- a/src/lightcurvelynx/obstable/fake_obs_table.py
+++ b/src/lightcurvelynx/obstable/fake_obs_table.py
@@ -1,3 +1,5 @@
+from numbers import Real
+
 import numpy as np
 
 from lightcurvelynx.astro_utils.noise_model import poisson_bandflux_std
@@ -107,7 +109,7 @@ class FakeObsTable(ObsTable):
 
         if const_flux_error is not None:
             # Convert a constant into a per-band dictionary.
-            if isinstance(const_flux_error, int | float):
+            if isinstance(const_flux_error, Real):
                 self.const_flux_error = {fil: const_flux_error for fil in self.filters}
 
             # Check that every filter occurs in the dictionary with a non-negative value.
diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index 5fbbcd9..d50a1f0 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -3,6 +3,7 @@ information. ObsTable class is a base class with specific implementations
 for different survey data, such as Rubin and ZTF."""
 
 import sqlite3
+from numbers import Real
 from pathlib import Path
 
 import astropy.units as u
@@ -195,7 +196,7 @@ class ObsTable:
         value = self.survey_values[colname]
 
         # If the value is a single number, convert it to a dictionary with the same value for all bands.
-        if isinstance(value, int | float):
+        if isinstance(value, Real):
             value = {fil: value for fil in self.filters}
 
         # Fill in the information for each filter.
@@ -203,7 +204,7 @@ class ObsTable:
         for fil in self.filters:
             if fil not in value:
                 raise ValueError(f"`{colname}` must include all the filters in the table. Missing '{fil}'.")
-            if not isinstance(value[fil], int | float):
+            if not isinstance(value[fil], Real):
                 raise ValueError(f"`{colname}` must map filter names to numeric values.")
             if check_positive and value[fil] <= 0:
                 raise ValueError(f"`{colname}` values must be positive. Got {value[fil]} for filter {fil}.")
-- 
2.43.0


From c9184e0dd32e586939cc7a688d2980a142d796b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:36 +0000
Subject: [PATCH 109/110] fix: survey values of numpy types survive storage

---
 src/lightcurvelynx/obstable/obs_table.py | 25 +++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/lightcurvelynx/obstable/obs_table.py b/src/lightcurvelynx/obstable/obs_table.py
index d50a1f0..b4e97d8 100644
--- a/src/lightcurvelynx/obstable/obs_table.py
+++ b/src/lightcurvelynx/obstable/obs_table.py
@@ -17,6 +17,29 @@ from scipy.spatial import KDTree
 from lightcurvelynx.astro_utils.detector_footprint import DetectorFootprint
 
 
+def _to_builtin(value):
+    """Convert a survey value into built-in Python types, because numpy's types
+    cannot be stored as metadata.
+
+    Parameters
+    ----------
+    value : any
+        The value to convert, including the entries of dictionaries, lists, and tuples.
+
+    Returns
+    -------
+    any
+        The same value without any numpy types.
+    """
+    if isinstance(value, dict):
+        return {_to_builtin(key): _to_builtin(val) for key, val in value.items()}
+    if isinstance(value, list | tuple):
+        return [_to_builtin(val) for val in value]
+    if isinstance(value, np.generic | np.ndarray):
+        return value.tolist()
+    return value
+
+
 class ObsTable:
     """A wrapper class around the observations table with helper computation functions and
     cached data for efficiency.
@@ -436,7 +459,7 @@ class ObsTable:
             raise FileExistsError(f"File {filename} already exists.")
 
         # Save all the survey data as metadata.
-        self._table.attrs["lightcurvelynx_survey_data"] = self.survey_values
+        self._table.attrs["lightcurvelynx_survey_data"] = _to_builtin(self.survey_values)
         self._table.to_parquet(filename)
 
     def time_bounds(self):
-- 
2.43.0


From a4a40ae6603506f0f41de1ab744c58a08aa8b26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:36:32 +0000
Subject: [PATCH 110/110] fix: refuse composite sources with bandflux parts for
 several surveys

---
 src/lightcurvelynx/simulate.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/lightcurvelynx/simulate.py b/src/lightcurvelynx/simulate.py
index 38d793f..d02be7a 100644
--- a/src/lightcurvelynx/simulate.py
+++ b/src/lightcurvelynx/simulate.py
@@ -6,9 +6,28 @@ import pandas as pd
 from nested_pandas import NestedFrame
 
 from lightcurvelynx.astro_utils.noise_model import apply_noise
+from lightcurvelynx.models.multi_object_model import MultiObjectModel
 from lightcurvelynx.models.physical_model import BandfluxModel
 
 
+def _has_bandflux(model):
+    """Check whether a model, or any part of a composite model, is a bandflux model.
+
+    Parameters
+    ----------
+    model : BasePhysicalModel
+        The model to check.
+
+    Returns
+    -------
+    bool
+        True if the model is (or contains) a BandfluxModel.
+    """
+    if isinstance(model, MultiObjectModel):
+        return any(_has_bandflux(object) for object in model.objects)
+    return isinstance(model, BandfluxModel)
+
+
 def get_time_windows(t0, time_window_offset):
     """Get the time windows for each sample state based on the time window offset.
 
@@ -125,8 +144,9 @@ def simulate_lightcurves(
         raise ValueError("Number of surveys must match number of passbands.")
 
     # We do not currently support bandflux models with multiple surveys because
-    # a bandflux model is defined relative to a single survey.
-    if num_surveys > 1 and isinstance(model, BandfluxModel):
+    # a bandflux model is defined relative to a single survey. This includes composite models
+    # with such parts.
+    if num_surveys > 1 and _has_bandflux(model):
         raise ValueError(
             "Simulating a BandfluxModel with multiple surveys is currently not supported, "
             "because the bandflux model is defined relative to the filters of a single survey."
-- 
2.43.0

