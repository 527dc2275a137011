From 8eff595ead6d1a08c83b750465ae7495973f2fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 01/54] fix: keep Categorical marginals aligned with their
 variable order and kept dimensions

---
 veroku/factors/categorical.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index e4c8a17..f5da50a 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -278,9 +278,14 @@ class Categorical(Factor):
         vars_to_sum_out = [v for v in self.var_names if v not in vars_to_keep]
         indices_to_sum_out = [self.var_names.index(v) for v in vars_to_sum_out]
         result_tensor = np.apply_over_axes(special.logsumexp, self.log_probs_tensor, axes=indices_to_sum_out)
-        vars_to_keep_assignment_values = [self.vars_assignments_names_dict[var] for var in vars_to_keep]
-        return Categorical(var_names=vars_to_keep, log_probs_tensor=np.squeeze(result_tensor),
-                           variables_assignment_names=vars_to_keep_assignment_values)
+        # Only the summed out dimensions should be removed (kept variables can have a cardinality of one).
+        result_tensor = np.squeeze(result_tensor, axis=tuple(indices_to_sum_out))
+        # The tensor dimensions are still in the order of this factor's variables (and not that of vars_to_keep).
+        vars_in_tensor_order = [v for v in self.var_names if v in vars_to_keep]
+        vars_to_keep_assignment_values = [self.vars_assignments_names_dict[var] for var in vars_in_tensor_order]
+        marginal = Categorical(var_names=vars_in_tensor_order, log_probs_tensor=result_tensor,
+                               variables_assignment_names=vars_to_keep_assignment_values)
+        return marginal.reorder(vars_to_keep)
 
     def reduce(self, vrs, values):
         """
-- 
2.43.0


From 76a5dceff79fe019e2175b9a36d2044354c62630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 02/54] fix: align Categorical tensors before applying the 0/0
 rule in cancel

---
 veroku/factors/categorical.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index f5da50a..0e33752 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -361,17 +361,13 @@ class Categorical(Factor):
         :return: The factor quotient.
         :rtype: Categorical
         """
-        augmented_factor_tensor = factor.log_probs_tensor.copy()
-        special_case_indices = np.where(
-            (augmented_factor_tensor == -np.inf) & (self.log_probs_tensor == -np.inf)
-        )
-
-        indices_are_empty = [a.size == 0 for a in special_case_indices]
+        def cancel_log_probs(log_probs_a, log_probs_b):
+            # The special case is determined here, where the dimensions of the two tensors have been aligned.
+            zero_over_zero = (log_probs_a == -np.inf) & (log_probs_b == -np.inf)
+            return log_probs_a - np.where(zero_over_zero, 0.0, log_probs_b)
 
-        if not all(indices_are_empty):
-            augmented_factor_tensor[special_case_indices] = np.float64(0.0)
         result_tensor, result_vars = self.tensor_operation(
-            self.log_probs_tensor, augmented_factor_tensor, self.var_names, factor.var_names, operator.sub
+            self.log_probs_tensor, factor.log_probs_tensor, self.var_names, factor.var_names, cancel_log_probs
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-- 
2.43.0


From 9d845629175115ae9c8cd1a34b8369de3ac93f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 03/54] fix: get_posterior_joint for graphs with message paths
 that have not been used yet

---
 veroku/cluster_graph.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index f642083..1821b79 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -405,7 +405,6 @@ class ClusterGraph:
             cluster_product = cluster_product.multiply(cluster._factor.joint_distribution)
         last_passed_message_factors = self._last_passed_message_factors
         if len(last_passed_message_factors) == 0:
-            assert self.num_messages_passed == 0
             joint = cluster_product
         else:
             message_product = last_passed_message_factors[0]
@@ -475,9 +474,14 @@ class ClusterGraph:
     @property
     def _last_passed_message_factors(self):
         """
-        The factors of the messages passed in the last iteration of message passing.
+        The factors of the messages last passed along every message path (paths along which no message has been passed
+        yet do not contribute).
         """
-        return [gmp.previously_sent_message.factor for gmp in self.graph_message_paths]
+        return [
+            gmp.previously_sent_message.factor
+            for gmp in self.graph_message_paths
+            if gmp.previously_sent_message is not None
+        ]
 
     def make_message_passing_animation_gif(self, filename="graph_animation.gif"):
         """
-- 
2.43.0


From e92851e609d8d1180be272eba6c3da77eddc5f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 04/54] fix: leave a cluster graph consistent and resumable
 when message passing is interrupted

---
 veroku/_cg_helpers/_cluster.py | 14 +++++++++-----
 veroku/cluster_graph.py        | 21 ++++++++++++++++-----
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/veroku/_cg_helpers/_cluster.py b/veroku/_cg_helpers/_cluster.py
index e690874..6fe0256 100644
--- a/veroku/_cg_helpers/_cluster.py
+++ b/veroku/_cg_helpers/_cluster.py
@@ -106,17 +106,21 @@ class Cluster:
 
         :param Message message: The received Message
         """
-        # Absorb message
         assert message.receiver_id == self.cluster_id, "Error: Message not meant for this Cluster."
-        self._factor = self._factor.multiply(message.factor)
+        sender_id = message.sender_id
+        message_factor = message.factor
+
+        # Absorb message
+        new_factor = self._factor.multiply(message_factor)
 
         # Cancel out any message previously received from sender cluster
-        sender_id = message.sender_id
         if sender_id in self._received_message_factors:
             prev_received_message_factor = self._received_message_factors[sender_id]
-            self._factor = self._factor.cancel(prev_received_message_factor)
+            new_factor = new_factor.cancel(prev_received_message_factor)
 
-        self._received_message_factors[message.sender_id] = message.factor.copy()
+        # The cluster potential and the record of the messages that it contains are only updated once everything has
+        # been computed, so that a failure (or interrupt) cannot leave the cluster with a half-absorbed message.
+        self._factor, self._received_message_factors[sender_id] = new_factor, message_factor
 
     def get_sepset(self, neighbour_id):
         """
diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index 1821b79..360bcb4 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -441,6 +441,13 @@ class ClusterGraph:
         key_func = lambda x: x.next_information_gain
         max_message_passes = max_iter * len(self.graph_message_paths)
 
+        for gmp in self.graph_message_paths:
+            if gmp.message_partially_passed:
+                # A previous call was interrupted while this message was being passed, passing it again completes it
+                # (the receiver cancels whatever it has already received from the sender).
+                gmp.pass_next_message()
+                self.num_messages_passed += 1
+
         self.graph_message_paths = collections.deque(
             sorted(self.graph_message_paths, key=key_func, reverse=True)
         )
@@ -474,13 +481,13 @@ class ClusterGraph:
     @property
     def _last_passed_message_factors(self):
         """
-        The factors of the messages last passed along every message path (paths along which no message has been passed
-        yet do not contribute).
+        The factors of the messages last received along every message path, i.e. those contained in the cluster potentials
+        (paths along which no message has been passed yet do not contribute).
         """
         return [
-            gmp.previously_sent_message.factor
-            for gmp in self.graph_message_paths
-            if gmp.previously_sent_message is not None
+            message_factor.copy()
+            for cluster in self._clusters
+            for message_factor in cluster._received_message_factors.values()
         ]
 
     def make_message_passing_animation_gif(self, filename="graph_animation.gif"):
@@ -515,6 +522,7 @@ class _GraphMessagePath:
         self.sender_cluster = sender_cluster
         self.receiver_cluster = receiver_cluster
         self.previously_sent_message = None
+        self.message_partially_passed = False
         self.next_message = self.sender_cluster.make_message(self.receiver_cluster.cluster_id)
         self.next_information_gain = None
         self.information_gains_with_iters = []
@@ -549,6 +557,8 @@ class _GraphMessagePath:
         """
         Pass the next message along this path.
         """
+        # Until the receiver's outward messages are up to date, this message is only partially passed (see process_graph).
+        self.message_partially_passed = True
         self.receiver_cluster.receive_message(self.next_message)
         self.previously_sent_message = self.next_message.copy()
         self.next_information_gain = 0.0
@@ -556,3 +566,4 @@ class _GraphMessagePath:
 
         for gmp in self.receiver_cluster._outward_message_paths:
             gmp.recompute_next_message()
+        self.message_partially_passed = False
-- 
2.43.0


From 77db79510b6cfafd74ec95c4235da7f14aebc355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:58 +0000
Subject: [PATCH 05/54] fix: Gaussian equals and kl_divergence no longer
 reorder their operand's parameters

---
 veroku/factors/gaussian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 713a8c8..2da5334 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -313,12 +313,12 @@ class Gaussian(Factor):
         if gaussian_copy._is_vacuous and self._is_vacuous:
             return True
         if self.canform:
-            if self._canform_equals(factor, rtol, atol):
+            if self._canform_equals(gaussian_copy, rtol, atol):
                 return True
             return False
         self._update_covform()
         if self.covform:
-            if not self._covform_equals(factor, rtol, atol):
+            if not self._covform_equals(gaussian_copy, rtol, atol):
                 return False
         return True
 
@@ -739,9 +739,10 @@ class Gaussian(Factor):
             return 0.0
         # TODO: can we compute the correct ('normalised') KL divergence without explicitly normalizing?
         normalized_self = self.normalize()
-        factor_ = factor
+        factor_ = factor.copy()
         if normalize_factor:
             factor_ = factor.normalize()
+        factor_._reorder_parameters(normalized_self.var_names)
         inv_cov_q = factor_.get_prec()
         inv_cov_p = normalized_self.get_prec()
         cov_p = normalized_self.get_cov()
-- 
2.43.0


From e61fdb85d7ffb34b22d67e867906b3cee7514b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 06/54] fix: render every graph image in its own temporary
 directory

---
 veroku/_cg_helpers/_animation.py | 12 ++++++++----
 veroku/cluster_graph.py          | 10 +++++++---
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/veroku/_cg_helpers/_animation.py b/veroku/_cg_helpers/_animation.py
index 2d67603..0c637e5 100644
--- a/veroku/_cg_helpers/_animation.py
+++ b/veroku/_cg_helpers/_animation.py
@@ -2,7 +2,9 @@
 A module for animating graphviz graphs.
 """
 # Standard imports
+import os
 import re
+import tempfile
 
 # Third-party imports
 from PIL import Image as PIL_Image
@@ -152,10 +154,12 @@ def graph_to_pil_image(graph):
     Convert the graph to a PIL image.
     :param graph: The graph to convert.
     """
-    graph.render("/tmp/test.gv", view=False)
-    pil_image = PIL_Image.open("/tmp/test.gv.png")
-    pil_image_copy = pil_image.copy()
-    pil_image.close()
+    # A separate directory is used for every call, so that graphs that are rendered simultaneously cannot interfere.
+    with tempfile.TemporaryDirectory() as temp_dir:
+        image_filename = graph.render(os.path.join(temp_dir, "graph.gv"), view=False)
+        pil_image = PIL_Image.open(image_filename)
+        pil_image_copy = pil_image.copy()
+        pil_image.close()
     return pil_image_copy
 
 
diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index 360bcb4..44f74f3 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -4,6 +4,8 @@ A module for building and performing inference with cluster graphs
 
 # Standard imports
 import collections
+import os
+import tempfile
 
 # Third-party imports
 import IPython
@@ -363,9 +365,11 @@ class ClusterGraph:
         """
         Show the cluster graph.
         """
-        self._graph.render("/tmp/test.gv", view=False)
-        image = IPython.core.display.Image("/tmp/test.gv.png")
-        IPython.core.display.display(image)
+        # A separate directory is used for every call, so that graphs that are shown simultaneously cannot interfere.
+        with tempfile.TemporaryDirectory() as temp_dir:
+            image_filename = self._graph.render(os.path.join(temp_dir, "graph.gv"), view=False)
+            image = IPython.core.display.Image(image_filename)
+            IPython.core.display.display(image)
 
     def save_graph_image(self, filename):
         """
-- 
2.43.0


From b1bf3ca513260f27d070e7f44fe942a9e02b353a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:20 +0000
Subject: [PATCH 07/54] fix: recolour graph elements whose names contain
 regular expression characters

---
 veroku/_cg_helpers/_animation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/veroku/_cg_helpers/_animation.py b/veroku/_cg_helpers/_animation.py
index 0c637e5..c75aee6 100644
--- a/veroku/_cg_helpers/_animation.py
+++ b/veroku/_cg_helpers/_animation.py
@@ -115,11 +115,12 @@ def change_graph_edge_color(graph, node_a_name, node_b_name, new_color):
     for i, string_i in enumerate(graph.body):
         if "--" in string_i:
             if contains_non_overlapping_substrings(node_a_name, node_b_name, string_i):
-                pattern = f'(\\t?"?{node_a_name}"?\s--\s"?{node_b_name}"?\s\[.*color=)([\S]*\s)(.*)'
+                node_a, node_b = re.escape(node_a_name), re.escape(node_b_name)
+                pattern = f'(\\t?"?{node_a}"?\s--\s"?{node_b}"?\s\[.*color=)([\S]*\s)(.*)'
                 new_string_i = re.sub(pattern, f"\g<1>{new_color} \g<3>", string_i)
                 # TODO: improve this (it's a bit hacky)
                 if new_string_i == string_i:
-                    pattern = f'(\\t?"?{node_b_name}"?\s--\s"?{node_a_name}"?\s\[.*color=)([\S]*\s)(.*)'
+                    pattern = f'(\\t?"?{node_b}"?\s--\s"?{node_a}"?\s\[.*color=)([\S]*\s)(.*)'
                     new_string_i = re.sub(pattern, f"\g<1>{new_color} \g<3>", string_i)
 
                 graph.body[i] = new_string_i
@@ -142,7 +143,7 @@ def change_graph_node_color(graph, node_name, new_color):
         if "--" not in element_string:  # not edge
             if node_name in element_string:
                 graph.body[i] = re.sub(
-                    f'(\\t?"?{node_name}"?\s\[.*fillcolor=)([\S]*\s)(.*)', f"\g<1>{new_color} \g<3>", element_string
+                    f'(\\t?"?{re.escape(node_name)}"?\s\[.*fillcolor=)([\S]*\s)(.*)', f"\g<1>{new_color} \g<3>", element_string
                 )
                 node_found = True
     if not node_found:
-- 
2.43.0


From d55370eaacde313b3f319cee3f582a37cb6635ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 08/54] fix: restore the graph colours when a message passing
 animation frame cannot be rendered

---
 veroku/_cg_helpers/_animation.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/veroku/_cg_helpers/_animation.py b/veroku/_cg_helpers/_animation.py
index c75aee6..a14f435 100644
--- a/veroku/_cg_helpers/_animation.py
+++ b/veroku/_cg_helpers/_animation.py
@@ -172,6 +172,24 @@ def add_message_pass_animation_frames(graph, frames, node_a_name, node_b_name):
     :param node_a_name: The one node.
     :param node_b_name: The other node.
     """
+    original_body = list(graph.body)
+    new_frames = []
+    try:
+        _make_message_pass_frames(graph, new_frames, node_a_name, node_b_name)
+    finally:
+        # If a frame could not be rendered, the colours that were set for it should not end up in subsequent frames.
+        graph.body[:] = original_body
+    frames.extend(new_frames)
+
+
+def _make_message_pass_frames(graph, frames, node_a_name, node_b_name):
+    """
+    Make the frames that represent a message being passed between two nodes in the graph.
+    :param graph: The graph.
+    :param frames: The list to add the frames to.
+    :param node_a_name: The one node.
+    :param node_b_name: The other node.
+    """
     new_color = "red"
     change_graph_node_color(graph=graph, node_name=node_a_name, new_color=new_color)
     frames.append(graph_to_pil_image(graph))
-- 
2.43.0


From 9011a8fc5ac7c3f48ba001ee73cf1142c618216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:48 +0000
Subject: [PATCH 09/54] fix: include the last passed message in the message
 passing animation

---
 veroku/cluster_graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index 44f74f3..ecaa31f 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -471,9 +471,6 @@ class ClusterGraph:
 
             max_next_information_gain = self.graph_message_paths[0].next_information_gain
             self.sync_message_passing_max_distances.append(max_next_information_gain)
-            if max_next_information_gain <= tol:
-                return
-
             if make_animation_gif:
                 cg_animation.add_message_pass_animation_frames(
                     graph=self._graph,
@@ -482,6 +479,9 @@ class ClusterGraph:
                     node_b_name=receiver_cluster_id,
                 )
 
+            if max_next_information_gain <= tol:
+                return
+
     @property
     def _last_passed_message_factors(self):
         """
-- 
2.43.0


From aa75f7e204d4689bd781c81626d2b9c13bd49b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:33 +0000
Subject: [PATCH 10/54] fix: process_graph can be called again on a single
 cluster graph with special evidence

---
 veroku/cluster_graph.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index ecaa31f..6db56cf 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -433,9 +433,11 @@ class ClusterGraph:
         self.sync_message_passing_max_distances = []
         if len(self._clusters) == 1:
             # The Cluster Graph contains only single cluster. Message passing not possible or necessary.
-            if self.special_evidence:
-                evidence_vrs = list(self.special_evidence.keys())
-                evidence_values = list(self.special_evidence.values())
+            # Only the evidence for variables that are (still) in the scope of the factor should be observed.
+            evidence_vrs, evidence_values = get_subset_evidence(
+                self.special_evidence, self._clusters[0].var_names
+            )
+            if len(evidence_vrs) > 0:
                 self._clusters[0]._factor = self._clusters[0]._factor.reduce(
                     vrs=evidence_vrs, values=evidence_values
                 )
-- 
2.43.0


From 88baa4678a9a347246ed88c70c7f323f6e538752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 11/54] fix: NonLinearGaussian joint is only stored once
 complete (simultaneous readers)

---
 veroku/factors/experimental/nonlinear_gaussian.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 035e1bf..e21cb58 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -295,17 +295,19 @@ class NonLinearGaussian(Factor):
             joint_cov, self.noise_cov, joint_var_names, self.conditional_vars, operator.add
         )
         joint_log_weight = self.log_weight + conditioning_factor.log_weight
-        self._joint_distribution = Gaussian(cov=joint_cov_plus_noise,
-                                            mean=joint_mean,
-                                            log_weight=joint_log_weight,
-                                            var_names=joint_vars,
+        # The result is only stored once it is complete, since other threads could be using this factor simultaneously.
+        joint_distribution = Gaussian(cov=joint_cov_plus_noise,
+                                      mean=joint_mean,
+                                      log_weight=joint_log_weight,
+                                      var_names=joint_vars,
         )
         if self.conditional_update_factor is not None:
-            self._joint_distribution = self._joint_distribution.multiply(self.conditional_update_factor)
+            joint_distribution = joint_distribution.multiply(self.conditional_update_factor)
         if len(conditional_observed_vars) > 0:
-            self._joint_distribution = self._joint_distribution.reduce(
+            joint_distribution = joint_distribution.reduce(
                 conditional_observed_vars, conditional_observed_values
             )
+        self._joint_distribution = joint_distribution
 
     def normalize(self):
         """
-- 
2.43.0


From e737bee64fc87ca4ee4fad25f8c9489eb6b1170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 12/54] fix: NonLinearGaussian equals no longer uses an
 outdated joint distribution

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index e21cb58..ce9b79e 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -101,7 +101,7 @@ class NonLinearGaussian(Factor):
         :return: The result of the comparison.
         :rtype: bool
         """
-        return self._joint_distribution.equals(factor, rtol=rtol, atol=atol)
+        return self.joint_distribution.equals(factor, rtol=rtol, atol=atol)
 
     def distance_from_vacuous(self):
         """
-- 
2.43.0


From e9fa9f6b0cf4a2c4f9e41b603ba57619a307a88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 13/54] fix: SparseCategorical potential for missing
 assignments and for any order of the variables

---
 veroku/factors/sparse_categorical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 8973f89..c1f5199 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -830,9 +830,9 @@ class SparseCategorical(Factor):
         :return: The value
         """
         assert set(vrs) == set(self.var_names), "variables (vrs) do not match factor variables."
-        vrs_to_var_names_indices = [self.var_names.index(v) for v in vrs]
-        var_names_order_assignments = tuple([assignment[i] for i in vrs_to_var_names_indices])
-        return np.exp(self.log_probs_table[var_names_order_assignments])
+        assignment_dict = dict(zip(vrs, assignment))
+        var_names_order_assignments = tuple([assignment_dict[v] for v in self.var_names])
+        return np.exp(self.log_probs_table.get(var_names_order_assignments, self.default_log_prob))
 
     @property
     def dense_distribution_array(self):
-- 
2.43.0


From 5df01d6d3b5bb95a13e6bd7ec981d156d4888df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 14/54] fix: SparseCategorical reduce for evidence without
 explicit assignments and with a default log prob

---
 veroku/factors/sparse_categorical.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index c1f5199..67a8e88 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -556,14 +556,20 @@ class SparseCategorical(Factor):
             old_variable_order=self.var_names,
             old_assign_probs=self.log_probs_table,
         )
-        lp_table = nested_table[tuple(values)]
+        # If none of the non-default assignments agree with the observed values, only default values remain.
+        lp_table = nested_table.get(tuple(values), dict())
         result_var_cards = copy.deepcopy(self.var_cards)
         for var in vrs:
             del result_var_cards[var]
 
         cards = list(result_var_cards.values())
         var_names = vars_unobserved
-        resulting_factor = SparseCategorical(var_names=var_names, log_probs_table=lp_table, cardinalities=cards)
+        resulting_factor = SparseCategorical(
+            var_names=var_names,
+            log_probs_table=lp_table,
+            cardinalities=cards,
+            default_log_prob=self.default_log_prob,
+        )
 
         return resulting_factor
 
-- 
2.43.0


From b392e5cfddbe0565805a63df47f12457878921f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 15/54] fix: SparseCategorical reorder keeps the default log
 prob

---
 veroku/factors/sparse_categorical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 67a8e88..c41539a 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -927,6 +927,7 @@ class SparseCategorical(Factor):
             var_names=new_var_names_order,
             log_probs_table=new_log_probs_table,
             cardinalities=reordered_cardinalities,
+            default_log_prob=self.default_log_prob,
         )
 
 
-- 
2.43.0


From 748db8a3208da5287e63e947d8caef19c6c0fd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 16/54] fix: complete every inner table (and not only the
 first) in sparse table operations

---
 veroku/factors/sparse_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index c41539a..a1733e8 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -80,7 +80,7 @@ def _make_inner_dense(sparse_nested_table, outer_inner_cards, default_value):
     sparse_nested_inner_dense_table = copy.deepcopy(sparse_nested_table)
     inner_cards = outer_inner_cards[1]
 
-    all_inner_table_assignments = itertools.product(*[range(c) for c in inner_cards])
+    all_inner_table_assignments = list(itertools.product(*[range(c) for c in inner_cards]))
     for outer_assign in sparse_nested_inner_dense_table.keys():
         for inner_assign in all_inner_table_assignments:
             if inner_assign not in sparse_nested_inner_dense_table[outer_assign]:
-- 
2.43.0


From 16445a1dc6ea5628d1194258238d44697ada6677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:55 +0000
Subject: [PATCH 17/54] fix: Gaussian KL divergence no longer zero for
 different Gaussians with small parameters

---
 veroku/factors/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 2da5334..2143a61 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -735,7 +735,8 @@ class Gaussian(Factor):
         if self._is_vacuous or factor._is_vacuous:
             return np.inf
 
-        if self.equals(factor):
+        # The default tolerances of equals would hide real differences between Gaussians with small parameters here.
+        if self.equals(factor, rtol=1e-8, atol=1e-8):
             return 0.0
         # TODO: can we compute the correct ('normalised') KL divergence without explicitly normalizing?
         normalized_self = self.normalize()
-- 
2.43.0


From 468040c91319e37387423abb64d9df5f1183ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 18/54] fix: SparseCategorical divide for factors without
 common variables

---
 veroku/factors/sparse_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index a1733e8..e2121c5 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -62,7 +62,7 @@ def _make_dense_default_probs_dict(cardinalities, default_value):
         (1,2):0.0}
     """
     dense_assingments = itertools.product(*[range(c) for c in cardinalities])
-    dense_default_dict = dict(zip(dense_assingments, [default_value] * np.product(cardinalities)))
+    dense_default_dict = {assignment: default_value for assignment in dense_assingments}
     return dense_default_dict
 
 
-- 
2.43.0


From e39e92970a0f60c414fa78e88b2a6d0f051f9ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:00 +0000
Subject: [PATCH 19/54] fix: SparseCategorical operations take default log
 probs other than -inf into account

---
 veroku/factors/sparse_categorical.py | 35 +++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index e2121c5..8fa1522 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -504,6 +504,20 @@ class SparseCategorical(Factor):
             default_log_prob=self.default_log_prob,
         )
 
+    def _with_zero_default(self):
+        """
+        Get an equivalent factor in which the missing assignments have a probability of zero (if necessary, by making
+        the default values explicit).
+
+        :return: The equivalent factor.
+        :rtype: SparseCategorical
+        """
+        if self.default_log_prob == -np.inf:
+            return self
+        dense_factor = _make_dense(self)
+        dense_factor.default_log_prob = -np.inf
+        return dense_factor
+
     def marginalize(self, vrs, keep=True):
         """
         Sum out variables from this factor.
@@ -520,7 +534,7 @@ class SparseCategorical(Factor):
             new_variables_order_outer=vars_to_keep,
             new_variables_order_inner=vars_to_sum_out,
             old_variable_order=self.var_names,
-            old_assign_probs=self.log_probs_table,
+            old_assign_probs=self._with_zero_default().log_probs_table,
         )
         result_table = dict()
         for l1_assign, log_probs_table in nested_table.items():
@@ -595,7 +609,8 @@ class SparseCategorical(Factor):
         """
         if not isinstance(factor, SparseCategorical):
             raise TypeError(f"factor must be of SparseCategorical type but has type {type(factor)}")
-        return self._apply_binary_operator(factor, operator.add, default_rules="any")
+        return self._with_zero_default()._apply_binary_operator(factor._with_zero_default(), operator.add,
+                                                                default_rules="any")
 
     def cancel(self, factor):
         """
@@ -612,7 +627,10 @@ class SparseCategorical(Factor):
                 return -np.inf
             return val_a - val_b
 
-        return self._apply_binary_operator(factor, special_divide, default_rules="any")
+        if not isinstance(factor, SparseCategorical):
+            raise TypeError(f"factor must be of SparseCategorical type but has type {type(factor)}")
+        return self._with_zero_default()._apply_binary_operator(factor._with_zero_default(), special_divide,
+                                                                default_rules="any")
 
     def divide(self, factor):
         """
@@ -632,7 +650,7 @@ class SparseCategorical(Factor):
         :return: The argmax assignment.
         :rtype: int list
         """
-        return max(self.log_probs_table.items(), key=operator.itemgetter(1))[0]
+        return max(self._with_zero_default().log_probs_table.items(), key=operator.itemgetter(1))[0]
 
     def _apply_to_probs(self, func, include_assignment=False):
         """
@@ -738,9 +756,10 @@ class SparseCategorical(Factor):
         """
 
         factor_copy = self.copy()
-        logz = special.logsumexp(list(factor_copy.log_probs_table.values()))
+        logz = special.logsumexp(list(self._with_zero_default().log_probs_table.values()))
         for assign, prob in factor_copy.log_probs_table.items():
             factor_copy.log_probs_table[assign] = prob - logz
+        factor_copy.default_log_prob -= logz
         return factor_copy
 
     def _is_dense(self):
@@ -777,7 +796,7 @@ class SparseCategorical(Factor):
             return kld_i
 
         kld_factor = SparseCategorical._apply_binary_operator(
-            log_p, log_q, kld_from_log_elements, default_rules="none"
+            log_p._with_zero_default(), log_q._with_zero_default(), kld_from_log_elements, default_rules="none"
         )  # TODO: check this
 
         klds = list(kld_factor.log_probs_table.values())
@@ -821,7 +840,7 @@ class SparseCategorical(Factor):
         :rtype: float
         """
         # make uniform copy
-        uniform_factor = self.copy()
+        uniform_factor = self._with_zero_default().copy()
         cards = list(uniform_factor.var_cards.values())
         uniform_log_prob = -np.log(np.product(cards))
         uniform_factor._apply_to_probs(lambda x: uniform_log_prob)
@@ -854,7 +873,7 @@ class SparseCategorical(Factor):
         """
         An array containing all the discrete assignments and the corresponding probabilities.
         """
-        log_weight = special.logsumexp(list(self.log_probs_table.values()))
+        log_weight = special.logsumexp(list(self._with_zero_default().log_probs_table.values()))
         weight_ = np.exp(log_weight)
         return weight_
 
-- 
2.43.0


From 6f5c5275ef7c22238ec0f994f86efa6c820dba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 20/54] fix: messages in graphs with loops no longer lose all
 precision to exponentially growing weights

---
 veroku/_cg_helpers/_cluster.py       |  3 +++
 veroku/cluster_graph.py              | 14 ++++++++++++++
 veroku/factors/_factor.py            |  9 +++++++++
 veroku/factors/categorical.py        | 13 +++++++++++++
 veroku/factors/sparse_categorical.py | 17 +++++++++++++++++
 5 files changed, 56 insertions(+)

diff --git a/veroku/_cg_helpers/_cluster.py b/veroku/_cg_helpers/_cluster.py
index 6fe0256..b3fb478 100644
--- a/veroku/_cg_helpers/_cluster.py
+++ b/veroku/_cg_helpers/_cluster.py
@@ -36,6 +36,7 @@ class Cluster:
         self._neighbour_references = []
         self._outward_message_paths = []
         self._special_evidence = None
+        self._rescale_messages = False
 
     def add_special_evidence(self, special_evidence):
         """
@@ -96,6 +97,8 @@ class Cluster:
         # Normalising here can cause incorrect convergence with discrete distributions
         # TODO: investigate this.
         #message_factor = message_factor.normalize()
+        if self._rescale_messages:
+            message_factor = message_factor._rescale()
 
         message = Message(factor=message_factor, sender_id=self.cluster_id, receiver_id=neighbour_id)
         return message
diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index 6db56cf..79754be 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -202,6 +202,7 @@ class ClusterGraph:
         self._conditional_print("Info: Building graph.")
         self._graph = graphviz.Graph(format="png")
         rip_sepsets_dict = self._get_running_intersection_sepsets()
+        self._rescale_messages_in_loopy_components(rip_sepsets_dict)
 
         # TODO: see why this is necessary, remove if not
         for i in tqdm(range(len(self._clusters)), disable=self.disable_tqdm):
@@ -238,6 +239,19 @@ class ClusterGraph:
                     self._graph.edge(sepset_node_name, node_j_name, color="black", penwidth="2.0")
         self._conditional_print(f"num graph message paths: {len(self.graph_message_paths)}")
 
+    def _rescale_messages_in_loopy_components(self, edges):
+        """
+        Let the clusters in components with loops send messages without weights. Weights that are passed around a loop would
+        otherwise be counted over and over and grow until nothing is left of the precision of the messages.
+
+        :param edges: The (i, j) index pairs of the neighbouring clusters.
+        """
+        graph = nx.Graph(list(edges))
+        for component in nx.connected_components(graph):
+            if graph.subgraph(component).number_of_edges() >= len(component):
+                for i in component:
+                    self._clusters[i]._rescale_messages = True
+
     def _conditional_print(self, message):
         """
         Print message if verbose is True.
diff --git a/veroku/factors/_factor.py b/veroku/factors/_factor.py
index 5b0b621..f5112ab 100644
--- a/veroku/factors/_factor.py
+++ b/veroku/factors/_factor.py
@@ -181,6 +181,15 @@ class Factor:
         :return: The normalized factor.
         """
 
+    def _rescale(self):
+        """
+        Get a factor that is proportional to this factor and of which the largest value is one (for the factors that
+        cannot do this, or do not need to, this is the factor itself).
+
+        :return: The rescaled factor.
+        """
+        return self
+
     @abstractmethod
     def show(self):
         """
diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 0e33752..0e5da25 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -436,6 +436,19 @@ class Categorical(Factor):
         factor_copy.log_probs_tensor -= logz
         return factor_copy
 
+    def _rescale(self):
+        """
+        Get a factor that is proportional to this factor and of which the largest value is one.
+
+        :return: The rescaled factor.
+        :rtype: Categorical
+        """
+        factor_copy = self.copy()
+        max_log_prob = np.max(self.log_probs_tensor)
+        if np.isfinite(max_log_prob):
+            factor_copy.log_probs_tensor -= max_log_prob
+        return factor_copy
+
     @staticmethod
     def _raw_kld(log_p, log_q):
         """
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 8fa1522..28e6d7a 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -762,6 +762,23 @@ class SparseCategorical(Factor):
         factor_copy.default_log_prob -= logz
         return factor_copy
 
+    def _rescale(self):
+        """
+        Get a factor that is proportional to this factor and of which the largest value is one.
+
+        :return: The rescaled factor.
+        :rtype: SparseCategorical
+        """
+        factor_copy = self.copy()
+        max_log_prob = max(self.log_probs_table.values(), default=-np.inf)
+        if not self._is_dense():
+            max_log_prob = max(max_log_prob, self.default_log_prob)
+        if np.isfinite(max_log_prob):
+            for assign, prob in self.log_probs_table.items():
+                factor_copy.log_probs_table[assign] = prob - max_log_prob
+            factor_copy.default_log_prob -= max_log_prob
+        return factor_copy
+
     def _is_dense(self):
         """
         Check if all factor assignments have non-default values.
-- 
2.43.0


From dc247a2e91b09c0060da0f34fc9eb855df2c9648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 21/54] fix: Categorical no longer changes the warning filters
 of the process

---
 veroku/factors/categorical.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 0e5da25..b5e5967 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -5,7 +5,6 @@ A module for instantiating sparse tables with log probabilities.
 # Standard imports
 import copy
 import operator
-import warnings
 import matplotlib.pyplot as plt
 
 # Third-party imports
@@ -120,9 +119,8 @@ class Categorical(Factor):
                 except IndexError as index_error:
                     error_message = f"assignment {assignment} is not consistent with the cardinalities ({cardinalities}) provided"
                     raise IndexError(error_message) from index_error
-            with warnings.catch_warnings():
+            with np.errstate(all="ignore"):
                 # prevents 'divide by zero encountered in log' from displaying
-                warnings.simplefilter("ignore")
                 self.log_probs_tensor = np.log(probs_tensor)
         else:
             if len(log_probs_tensor.shape) != len(var_names):
@@ -459,8 +457,7 @@ class Categorical(Factor):
         :return: The KL-divergence
         :rtype: float
         """
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
+        with np.errstate(all="ignore"):
             kl_array = np.where(log_p != -np.inf, np.exp(log_p) * (log_p - log_q), 0.0)
         kld = np.sum(kl_array)
         return kld
-- 
2.43.0


From 2e70c895fda6fe915cf4b880bb1fb9788554f5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:24 +0000
Subject: [PATCH 22/54] fix: textual representation of a Gaussian no longer
 changes the print options of numpy

---
 veroku/factors/gaussian.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 2143a61..4424cc3 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -131,6 +131,17 @@ def make_linear_gaussian_cpd_template(a_mat, n_mat, conditioning_var_templates,
     return GaussianTemplate(gaussian_parameters, var_templates)
 
 
+def _array_to_string(array):
+    """
+    Get the string representation of a parameter (independently of, and without changing, the numpy print options).
+
+    :param array: The parameter.
+    :return: The string representation.
+    :rtype: str
+    """
+    return np.array2string(array, max_line_width=np.inf, precision=4, edgeitems=3)
+
+
 class Gaussian(Factor):
     """
     A class for instantiating and performing operations om multivariate Gaussian distributions.
@@ -864,13 +875,12 @@ class Gaussian(Factor):
         """
         self_copy = self.copy()
         self_copy._update_covform()
-        np.set_printoptions(linewidth=np.inf)
         repr_str = (
                 "cov        = \n"
-                + str(self_copy.cov)
+                + _array_to_string(self_copy.cov)
                 + "\n"
                 + "mean       = \n"
-                + str(self_copy.mean)
+                + _array_to_string(self_copy.mean)
                 + "\n"
                 + "log_weight = \n"
                 + str(self_copy.log_weight)
@@ -887,13 +897,12 @@ class Gaussian(Factor):
         """
         self_copy = self.copy()
         self_copy._update_canform()
-        np.set_printoptions(linewidth=np.inf)
         repr_str = (
                 "prec = \n"
-                + str(self_copy.prec)
+                + _array_to_string(self_copy.prec)
                 + "\n"
                 + "h = \n"
-                + str(self_copy.h_vec)
+                + _array_to_string(self_copy.h_vec)
                 + "\n"
                 + "g = \n"
                 + str(self_copy.g_val)
@@ -911,9 +920,6 @@ class Gaussian(Factor):
         :return: The factor representation string.
         :rtype: str
         """
-        np.set_printoptions(edgeitems=3)
-        np.set_printoptions(precision=4)
-        np.core.arrayprint._line_width = 200
         repr_str = "vars = " + str(self.var_names) + "\n"
         if not self._is_vacuous:
             repr_str += self._get_can_repr_str()
@@ -924,9 +930,6 @@ class Gaussian(Factor):
         """
         Print the parameters of the Gaussian distribution
         """
-        np.set_printoptions(edgeitems=3)
-        np.set_printoptions(precision=4)
-        np.core.arrayprint._line_width = 200
         print("vars = ", self.var_names)
         if self.covform:
             print(self._get_cov_repr_str())
-- 
2.43.0


From 64294105a019f467a149d2b219914a4316be34ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 23/54] fix: GaussianMixture.equals compares the components as
 a multiset, with the given tolerances

---
 veroku/factors/experimental/gaussian_mixture.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 272b35a..8b10020 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -104,12 +104,14 @@ class GaussianMixture(Factor):
             raise TypeError(f"factor must be of GaussianMixture type but has type {type(factor)}")
         if factor.num_components != self.num_components:
             return False
+        # every component must have a corresponding component (which corresponds to no other component)
+        unmatched_indices = list(range(factor.num_components))
         for i in range(self.num_components):
-            found_corresponding_factor = False
-            for j in range(i, self.num_components):
-                if self.get_component(i).equals(factor.get_component(j)):
-                    found_corresponding_factor = True
-            if not found_corresponding_factor:
+            for j in unmatched_indices:
+                if self.get_component(i).equals(factor.get_component(j), rtol=rtol, atol=atol):
+                    unmatched_indices.remove(j)
+                    break
+            else:
                 return False
         return True
 
-- 
2.43.0


From 554fc97ec4316a87d5445f451a6daf3b5062e808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 24/54] fix: the copy of a GaussianMixture keeps its cancel
 method

---
 veroku/factors/experimental/gaussian_mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 8b10020..6675cc8 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -136,7 +136,7 @@ class GaussianMixture(Factor):
         component_copies = []
         for comp in self.components:
             component_copies.append(comp.copy())
-        return GaussianMixture(component_copies)
+        return GaussianMixture(component_copies, cancel_method=self.cancel_method)
 
     def multiply(self, factor):
         """
-- 
2.43.0


From e16d986d85ef0e3f90a9d8983ee5d50569cdec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:13 +0000
Subject: [PATCH 25/54] fix: splitting a Gaussian keeps its weight

---
 veroku/factors/gaussian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 4424cc3..336304e 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -1040,7 +1040,8 @@ class Gaussian(Factor):
 
         gaussians = []
         for mean, cov, weight in zip(means, covs, weights):
-            gaussian = Gaussian(cov=cov, mean=mean, log_weight=np.log(weight), var_names=self.var_names)
+            log_weight = np.log(weight) + self.get_log_weight()
+            gaussian = Gaussian(cov=cov, mean=mean, log_weight=log_weight, var_names=self.var_names)
             gaussians.append(gaussian)
 
         return gm.GaussianMixture(gaussians)
-- 
2.43.0


From 8e577f05aa50de1f75b402cc0c1ee897201d109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:18 +0000
Subject: [PATCH 26/54] fix: NonLinearGaussian supports observing all of the
 conditioning variables

---
 .../experimental/nonlinear_gaussian.py        | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index ce9b79e..7ad8199 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -253,28 +253,37 @@ class NonLinearGaussian(Factor):
             return
 
         # If we are still here, there we can calculate the transformation.
-        conditioning_factor_sigma_points_array = np.expand_dims(np.array([]), axis=0).T  # empty dummy for generalisation
+        # If all the conditioning variables are observed, there is only one point (without any unobserved variables).
+        conditioning_factor_sigma_points_array = np.zeros([0, 1])
+        conditioning_factor_var_names = []
+        conditioning_log_weight = 0.0
         if self.conditioning_factor is not None:
             conditioning_factor = self.conditioning_factor.copy()
             cond_factor_observed_vars = list(set(observed_vars).intersection(conditioning_factor.var_names))
             cond_factor_observed_values = [self.observed_evidence[var] for var in cond_factor_observed_vars]
 
-            if len(cond_factor_observed_vars) > 0:
-                conditioning_factor = conditioning_factor.reduce(
-                    vrs=cond_factor_observed_vars, values=cond_factor_observed_values
+            if set(cond_factor_observed_vars) == set(conditioning_factor.var_names):
+                conditioning_log_weight = conditioning_factor.log_potential(
+                    cond_factor_observed_values, vrs=cond_factor_observed_vars
                 )
-
-            conditioning_factor_sigma_points_array = get_sigma_points_array(conditioning_factor)
+            else:
+                if len(cond_factor_observed_vars) > 0:
+                    conditioning_factor = conditioning_factor.reduce(
+                        vrs=cond_factor_observed_vars, values=cond_factor_observed_values
+                    )
+                conditioning_factor_sigma_points_array = get_sigma_points_array(conditioning_factor)
+                conditioning_factor_var_names = conditioning_factor.var_names
+                conditioning_log_weight = conditioning_factor.get_log_weight()
 
         # extend sigma points with observed variable values
         if len(conditioning_observed_vars) > 0:
             observed_vec = _factor_utils.make_column_vector(conditioning_observed_values)
             tiled_observed_vec = np.tile(observed_vec, [1, conditioning_factor_sigma_points_array.shape[1]])
             extended_sigma_points_array = np.concatenate([tiled_observed_vec, conditioning_factor_sigma_points_array])
-            extended_sigma_point_vars = conditioning_observed_vars + conditioning_factor.var_names
+            extended_sigma_point_vars = conditioning_observed_vars + conditioning_factor_var_names
         else:
             extended_sigma_points_array = conditioning_factor_sigma_points_array
-            extended_sigma_point_vars = conditioning_factor.var_names
+            extended_sigma_point_vars = conditioning_factor_var_names
 
         # TODO: Add conditional var_names here somehow. We need to ensure that the correct variables are used
         # in the correct place in the transformation. In the past, we have simply done this by standardising
@@ -289,12 +298,12 @@ class NonLinearGaussian(Factor):
         nov = len(conditioning_observed_vars)  # number of observed vars
         joint_cov = joint_cov[nov:, nov:]
         joint_mean = joint_mean[nov:, :]
-        joint_var_names = conditioning_factor.var_names + self.conditional_vars
+        joint_var_names = conditioning_factor_var_names + self.conditional_vars
 
         joint_cov_plus_noise, joint_vars = indexed_square_matrix_operation(
             joint_cov, self.noise_cov, joint_var_names, self.conditional_vars, operator.add
         )
-        joint_log_weight = self.log_weight + conditioning_factor.log_weight
+        joint_log_weight = self.log_weight + conditioning_log_weight
         # The result is only stored once it is complete, since other threads could be using this factor simultaneously.
         joint_distribution = Gaussian(cov=joint_cov_plus_noise,
                                       mean=joint_mean,
-- 
2.43.0


From 814a230716280d9228153a173920e3c8b229dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 27/54] fix: the parameters of a NonLinearGaussian are in the
 order of its variables

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 7ad8199..3a4e384 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -316,6 +316,8 @@ class NonLinearGaussian(Factor):
             joint_distribution = joint_distribution.reduce(
                 conditional_observed_vars, conditional_observed_values
             )
+        # The parameters are given in the order of the variables of this factor.
+        joint_distribution._reorder_parameters([v for v in self.var_names if v in joint_distribution.var_names])
         self._joint_distribution = joint_distribution
 
     def normalize(self):
-- 
2.43.0


From cb50a4584579c8718c1a8cfc8787ad6a463e7396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:51 +0000
Subject: [PATCH 28/54] fix: NonLinearGaussian.plot plots the current joint
 distribution

---
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 3a4e384..a04a952 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -497,7 +497,7 @@ class NonLinearGaussian(Factor):
         """
         self_copy = self.copy()
         self_copy._recompute_joint()
-        self._joint_distribution.plot()
+        self_copy._joint_distribution.plot()
 
 
 class NonLinearGaussianMixture(Factor):
-- 
2.43.0


From fa72a816941e85fbcb0cf5ff156458c7c9540198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:51 +0000
Subject: [PATCH 29/54] fix: NonLinearGaussianMixture can be multiplied by a
 Gaussian, marginalized and sampled, and keeps its options

---
 .../experimental/nonlinear_gaussian.py        | 26 +++++++------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index a04a952..aa376ab 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -543,7 +543,7 @@ class NonLinearGaussianMixture(Factor):
         :return: the factor
         :rtype: NonLinearGaussianMixture
         """
-        return NonLinearGaussianMixture(self.nlgs)
+        return NonLinearGaussianMixture(self.nlgs, split_singles_before_absorb=self.split_singles_before_absorb)
 
     @property
     def joint_distribution(self):
@@ -563,7 +563,7 @@ class NonLinearGaussianMixture(Factor):
         if isinstance(factor, GaussianMixture):
             gm_factor = factor
         elif isinstance(factor, Gaussian):
-            gm_factor = GaussianMixture([Gaussian])
+            gm_factor = GaussianMixture([factor])
         else:
             raise NotImplementedError()
 
@@ -577,7 +577,7 @@ class NonLinearGaussianMixture(Factor):
         for gauss in gm_factor.components:
             for nlg in self.nlgs:
                 new_nlgs.append(nlg.multiply(gauss))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, split_singles_before_absorb=self.split_singles_before_absorb)
 
     def divide(self, factor):
         """
@@ -597,7 +597,7 @@ class NonLinearGaussianMixture(Factor):
         new_nlgs = []
         for nlg in self.nlgs:
             new_nlgs.append(nlg.divide(gaussian_factor))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, split_singles_before_absorb=self.split_singles_before_absorb)
 
     def reduce(self, vrs, values):
         """
@@ -611,7 +611,7 @@ class NonLinearGaussianMixture(Factor):
         new_nlgs = []
         for nlg in self.nlgs:
             new_nlgs.append(nlg.reduce(vrs, values))
-        return NonLinearGaussianMixture(new_nlgs)
+        return NonLinearGaussianMixture(new_nlgs, split_singles_before_absorb=self.split_singles_before_absorb)
 
     def marginalize(self, vrs, keep=True):
         """
@@ -620,12 +620,10 @@ class NonLinearGaussianMixture(Factor):
         :param vrs: (list) a subset of variables in the factor's scope
         :param keep: Whether to keep or sum out vrs
         :return: the resulting marginal
-        :rtype: NonLinearGaussianMixture
+        :rtype: GaussianMixture
         """
-        new_nlgs = []
-        for nlg in self.nlgs:
-            new_nlgs.append(nlg.marginalize(vrs, keep))
-        return NonLinearGaussianMixture(new_nlgs)
+        # the marginals of non-linear Gaussians are Gaussians
+        return GaussianMixture([nlg.marginalize(vrs, keep) for nlg in self.nlgs])
 
     def sample(self, num_samples):
         """
@@ -637,13 +635,7 @@ class NonLinearGaussianMixture(Factor):
         :return: The samples.
         :rtype: int
         """
-
-        # TODO: fix incorrect num samples issue
-        sample_sets = []
-        for nlg in self.nlgs:
-            samples = nlg.sample(num_samples)
-            sample_sets.append(samples)
-        return np.concatenate(sample_sets)
+        return self.joint_distribution.sample(num_samples)
 
     def plot(self):
         """
-- 
2.43.0


From 08769e4dcb4c7e3d8d21ca1c0b0534542bbcb911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 30/54] fix: a NonLinearGaussian keeps the weight of vacuous
 factors

---
 veroku/factors/experimental/nonlinear_gaussian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index aa376ab..5646364 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -351,7 +351,8 @@ class NonLinearGaussian(Factor):
                 "Multiplication of two nonlinear-Gaussian factors has not been implemented."
             )
         if factor._is_vacuous:
-            # TODO: check this (esp to see what to do with)
+            # A vacuous factor is a constant, and contributes only to the weight.
+            self_copy.add_log_weight(factor.get_g())
             return self_copy
         # TODO: change to 'update conditional model and re-transform model' (if correct)
         if not isinstance(factor, Gaussian):
@@ -385,7 +386,7 @@ class NonLinearGaussian(Factor):
         """
         self_copy = self.copy()
         if factor._is_vacuous:
-            # TODO: check this (esp to see what to do with)
+            self_copy.add_log_weight(-factor.get_g())
             return self_copy
         # TODO: change to 'update conditional model and re-transform model' (if correct)
         if not isinstance(factor, Gaussian):
-- 
2.43.0


From c3c87e1eedd86b82d00a12834a51fdf75873b675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:03 +0000
Subject: [PATCH 31/54] fix: Gaussians made from a template are not marked as
 vacuous

---
 veroku/factors/gaussian.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 336304e..b14d87a 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -1085,7 +1085,4 @@ class GaussianTemplate(FactorTemplate):
         if format_dict is not None:
             assert var_names is None
             var_names = [vt.format(**format_dict) for vt in self._var_templates]
-        # TODO: remove this and find better solution
-        g_val = Gaussian(prec=self.prec.copy(), h_vec=self.h_vec.copy(), g_val=self.g_val, var_names=var_names)
-        g_val._is_vacuous = True
-        return g_val
+        return Gaussian(prec=self.prec.copy(), h_vec=self.h_vec.copy(), g_val=self.g_val, var_names=var_names)
-- 
2.43.0


From 012f206fa1504b87050bab4f76d8cc8f8a99bd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 32/54] fix: the KL divergence between messages that cannot be
 normalized no longer fails

---
 veroku/factors/gaussian.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index b14d87a..a3991b0 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -746,6 +746,14 @@ class Gaussian(Factor):
         if self._is_vacuous or factor._is_vacuous:
             return np.inf
 
+        if not (self._is_proper() and factor._is_proper()):
+            # Neither can be normalized, so (as for vacuous Gaussians) they can only be the same or infinitely different.
+            factor_ = factor.copy()
+            factor_._reorder_parameters(self.var_names)
+            same_prec = np.allclose(self.get_prec(), factor_.get_prec(), rtol=1e-8, atol=1e-8)
+            same_h_vec = np.allclose(self.get_h(), factor_.get_h(), rtol=1e-8, atol=1e-8)
+            return 0.0 if same_prec and same_h_vec else np.inf
+
         # The default tolerances of equals would hide real differences between Gaussians with small parameters here.
         if self.equals(factor, rtol=1e-8, atol=1e-8):
             return 0.0
@@ -772,6 +780,20 @@ class Gaussian(Factor):
         # TODO: Add warning or error if this is negative and remove abs below
         return np.abs(kld[0][0])
 
+    def _is_proper(self):
+        """
+        Check if this Gaussian can be normalized. Messages that are not (completely) informed, such as those from
+        conditional distributions, can not.
+
+        :return: The result of the check.
+        :rtype: bool
+        """
+        if self.covform:
+            return True
+        eigenvalues = np.linalg.eigvalsh(self.prec)
+        rounding_error = self.dim * np.finfo(float).eps * np.abs(eigenvalues).max() + np.abs(self.prec - self.prec.T).max()
+        return eigenvalues[0] > rounding_error
+
     @property
     def is_vacuous(self):
         """
-- 
2.43.0


From 526b9ec08364fb6176a06a26990f3fb5a8bd589f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 33/54] fix: a NonLinearGaussian whose conditioning factor is
 improper is uninformed instead of failing

---
 veroku/factors/experimental/nonlinear_gaussian.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index 5646364..cfc1629 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -271,6 +271,10 @@ class NonLinearGaussian(Factor):
                     conditioning_factor = conditioning_factor.reduce(
                         vrs=cond_factor_observed_vars, values=cond_factor_observed_values
                     )
+                if not conditioning_factor._is_proper():
+                    # There is not (or no longer) enough information about the conditioning variables.
+                    self._joint_distribution = Gaussian.make_vacuous(self.var_names)
+                    return
                 conditioning_factor_sigma_points_array = get_sigma_points_array(conditioning_factor)
                 conditioning_factor_var_names = conditioning_factor.var_names
                 conditioning_log_weight = conditioning_factor.get_log_weight()
@@ -438,7 +442,7 @@ class NonLinearGaussian(Factor):
         self_copy._recompute_joint()
         if self_copy._joint_distribution._is_vacuous:
             if set(vrs_to_keep) <= set(self_copy.conditioning_vars):
-                if self_copy.conditioning_factor is not None:
+                if self_copy.conditioning_factor is not None and self_copy.conditioning_factor._is_proper():
                     if set(vrs_to_keep) <= set(self_copy.conditioning_factor.var_names):
                         marginal = self_copy.conditioning_factor.marginalize(vrs_to_keep, keep=True)
                         return marginal
-- 
2.43.0


From 27dfce83ac173163215cbf81c7f39b5d5148a843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 34/54] fix: linear Gaussian templates keep their weight and
 accept transforms that are not square

---
 veroku/factors/gaussian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index a3991b0..6189132 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -98,7 +98,7 @@ def make_linear_gaussian(a_mat, n_mat, conditioning_vars, conditional_vars):
     prec_cpd = prec_joint.copy()
     prec_cpd[:x_dim, :x_dim] = prec_cpd[:x_dim, :x_dim] - prec_xx
 
-    mean_joint = np.block([[u_x], [a_mat.T @ u_x]])
+    mean_joint = np.block([[u_x], [a_mat @ u_x]])
 
     h_cpd = prec_joint @ mean_joint
     h_cpd[:x_dim] = h_cpd[:x_dim] - h_x
@@ -123,11 +123,12 @@ def make_linear_gaussian_cpd_template(a_mat, n_mat, conditioning_var_templates,
     :return: The linear Gaussian Template
     :rtype: Gaussian
     """
-    assert len(conditioning_var_templates) == a_mat.shape[0]
+    assert len(conditioning_var_templates) == a_mat.shape[1]
+    assert len(conditional_var_templates) == a_mat.shape[0]
     assert n_mat.shape[0] == a_mat.shape[0]
     nlg = make_linear_gaussian(a_mat, n_mat, conditioning_var_templates, conditional_var_templates)
     var_templates = conditioning_var_templates + conditional_var_templates
-    gaussian_parameters = {"prec": nlg.get_prec(), "h": nlg.get_h(), "g": 0}
+    gaussian_parameters = {"prec": nlg.get_prec(), "h": nlg.get_h(), "g": nlg.get_g()}
     return GaussianTemplate(gaussian_parameters, var_templates)
 
 
-- 
2.43.0


From a9a8af29b59ae1e321926ea1a789821f72b63802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 35/54] fix: do not use Python's global random state for
 message ids

---
 veroku/_cg_helpers/_cluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/_cg_helpers/_cluster.py b/veroku/_cg_helpers/_cluster.py
index b3fb478..350b245 100644
--- a/veroku/_cg_helpers/_cluster.py
+++ b/veroku/_cg_helpers/_cluster.py
@@ -185,7 +185,7 @@ class Message:
         :param sender_id:  The cluster_id of the sender cluster
         :param receiver_id: The cluster_id of the receiver cluster
         """
-        self.uuid = str(uuid.uuid1())
+        self.uuid = str(uuid.uuid4())
         self._sender_id = sender_id
         self._receiver_id = receiver_id
         self._factor = factor
-- 
2.43.0


From 519cddc210b9ffa11489fbf97f689c2734c09812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 36/54] fix: Gaussian mixtures with very small or large weights
 can be sampled and moment matched

---
 .../factors/experimental/gaussian_mixture.py  | 43 ++++++++++---------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 6675cc8..17ebe18 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -317,6 +317,17 @@ class GaussianMixture(Factor):
             weights.append(comp.get_weight())
         return weights
 
+    def _get_relative_weights(self):
+        """
+        Get the weights of the Gaussian mixture components, scaled such that they sum to one. The scaling is done in log
+        space, because weights can be too small (or too large) to represent.
+
+        :return: the relative weights
+        :rtype: numpy.ndarray
+        """
+        log_weights = np.array(self._get_log_weights(), dtype=float)
+        return np.exp(log_weights - special.logsumexp(log_weights))
+
     def get_log_weight(self):
         """
         Get the total log weight of the Gaussian mixture.
@@ -366,7 +377,7 @@ class GaussianMixture(Factor):
         :return: The samples
         :rtype: float list
         """
-        weights = self._get_weights()
+        weights = self._get_relative_weights()
         component_choice_samples = np.random.choice(
             range(len(weights)), size=num_samples, p=weights / np.sum(weights)
         )
@@ -443,24 +454,16 @@ class GaussianMixture(Factor):
         :return: The Gaussian approximation.
         :rtype: Gaussian
         """
+        weights = self._get_relative_weights()
         new_mean = np.zeros([self.dim, 1])
-        log_weights = []
-        for comp in self.components:
-            weight_mean = comp.get_weight() * comp.get_mean()
-            new_mean += weight_mean
-            log_weights.append(comp.get_log_weight())
-        log_sum_weights = special.logsumexp(log_weights)
-        sum_weights = np.exp(log_sum_weights)
-        new_mean = new_mean / sum_weights
+        for weight, comp in zip(weights, self.components):
+            new_mean += weight * comp.get_mean()
         new_cov = np.zeros([self.dim, self.dim])
-        for comp in self.components:
-            udud_t = comp.get_weight() * (comp.get_mean() - new_mean).dot(
-                (comp.get_mean() - new_mean).transpose()
-            )
-            new_cov += comp.get_weight() * comp.get_cov() + udud_t
-        new_cov = new_cov / sum_weights
+        for weight, comp in zip(weights, self.components):
+            udud_t = weight * (comp.get_mean() - new_mean).dot((comp.get_mean() - new_mean).transpose())
+            new_cov += weight * comp.get_cov() + udud_t
         return gauss.Gaussian(
-            cov=new_cov, mean=new_mean, log_weight=log_sum_weights, var_names=self.components[0].var_names
+            cov=new_cov, mean=new_mean, log_weight=self.get_log_weight(), var_names=self.components[0].var_names
         )
 
     def argmax(self):
@@ -470,7 +473,7 @@ class GaussianMixture(Factor):
         :return: The argmax assignment.
         :rtype: numpy.ndarray
         """
-        global_maximum_potential = -float("inf")
+        global_maximum_log_potential = -float("inf")
         global_argmax = None
         success = False
 
@@ -485,9 +488,9 @@ class GaussianMixture(Factor):
             x_local_max = res.x
             if res.success:
                 success = True
-                local_maximum_potential = self.potential(x_local_max)
-                if local_maximum_potential > global_maximum_potential:
-                    global_maximum_potential = local_maximum_potential
+                local_maximum_log_potential = self.log_potential(x_local_max)
+                if local_maximum_log_potential > global_maximum_log_potential:
+                    global_maximum_log_potential = local_maximum_log_potential
                     global_argmax = x_local_max
         if not success:
             raise OptimizationFailedError("Could not find optimum")
-- 
2.43.0


From d7d9e4d6916b7d72ddf417baaaf9e9ea03d6a817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 37/54] fix: messages completed after an interrupt are recorded
 and animated like all others

---
 veroku/cluster_graph.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index 79754be..0721d6b 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -465,8 +465,17 @@ class ClusterGraph:
             if gmp.message_partially_passed:
                 # A previous call was interrupted while this message was being passed, passing it again completes it
                 # (the receiver cancels whatever it has already received from the sender).
+                if self.debug:
+                    self.passed_messages.append(gmp.next_message.copy())
                 gmp.pass_next_message()
                 self.num_messages_passed += 1
+                if make_animation_gif:
+                    cg_animation.add_message_pass_animation_frames(
+                        graph=self._graph,
+                        frames=self.message_passing_animation_frames,
+                        node_a_name=gmp.sender_cluster.cluster_id,
+                        node_b_name=gmp.receiver_cluster.cluster_id,
+                    )
 
         self.graph_message_paths = collections.deque(
             sorted(self.graph_message_paths, key=key_func, reverse=True)
-- 
2.43.0


From 62910fb434b2e049911a5af5d806feb55a32b58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 38/54] fix: show of factorised factors failed

---
 veroku/factors/experimental/factorised_factor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 8245670..4ce3239 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -367,6 +367,6 @@ class FactorizedFactor(Factor):
         """
         Print this factorised factor.
         """
-        for i, factor in self.factors:
+        for i, factor in enumerate(self.factors):
             print(f"\n factor {i}/{len(self.factors)}:")
             factor.show()
-- 
2.43.0


From 419f931b48cfdf86bbdb43322e8debae05824466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 39/54] fix: variables of factorised factors were in the order
 of a set, which was not that of the mean and covariance

---
 .../factors/experimental/factorised_factor.py   | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 4ce3239..5e63aca 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -29,7 +29,7 @@ class FactorizedFactor(Factor):
         """
         assert all([not isinstance(factor, FactorizedFactor) for factor in factors])
         factors_var_name_lists = [factor.var_names for factor in factors]
-        factors_var_name = list({var_name for sublist in factors_var_name_lists for var_name in sublist})
+        factors_var_name = list(dict.fromkeys(var_name for sublist in factors_var_name_lists for var_name in sublist))
         super().__init__(var_names=factors_var_name)
         self.factors = []
         for factor in factors:
@@ -211,7 +211,7 @@ class FactorizedFactor(Factor):
         :return: The cov parameter.
         :rtype: numpy.ndarray
         """
-        return self.joint_distribution.get_cov()
+        return self._get_ordered_joint_distribution().get_cov()
 
     def get_mean(self):
         """
@@ -220,7 +220,18 @@ class FactorizedFactor(Factor):
         :return: The mean parameter.
         :rtype: numpy.ndarray
         """
-        return self.joint_distribution.get_mean()
+        return self._get_ordered_joint_distribution().get_mean()
+
+    def _get_ordered_joint_distribution(self):
+        """
+        Get the joint distribution (if Gaussian) with its parameters in the order of this factor's variables.
+
+        :return: The joint distribution.
+        :rtype: Gaussian
+        """
+        joint_distribution = self.joint_distribution
+        joint_distribution._reorder_parameters(self.var_names)
+        return joint_distribution
 
     def _merge_dependent_factors(self):
         """
-- 
2.43.0


From 843f5cbe04a00eec26fdcb16e95a49707bf645af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:03 +0000
Subject: [PATCH 40/54] fix: multiplying or dividing factorised factors shared
 the operand and left the variables outdated

---
 veroku/factors/experimental/factorised_factor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 5e63aca..b602bdc 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -78,7 +78,7 @@ class FactorizedFactor(Factor):
             factorised_factor_copy.factors[index] = factorised_factor_copy.factors[index].multiply(factor)
         else:
             factorised_factor_copy.factors.append(factor)
-        return factorised_factor_copy
+        return FactorizedFactor(factorised_factor_copy.factors)
 
     def divide(self, factor):
         """
@@ -95,7 +95,7 @@ class FactorizedFactor(Factor):
             if factorised_comp.equals(factor):
                 if len(self.factors) > 1:
                     del factorised_factor_copy.factors[i]
-                    return factorised_factor_copy
+                    return FactorizedFactor(factorised_factor_copy.factors)
                 # TODO: add else to make general vacuous factor (wont necessarily be Gaussian)
         if index is not None:
             factorised_factor_copy.factors[index] = factorised_factor_copy.factors[index].divide(factor)
-- 
2.43.0


From e07a4670763cc4330d8e895e9276d1da5f661fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 41/54] fix: factorised factor marginals were wrong when
 factors were connected through other factors

---
 .../factors/experimental/factorised_factor.py | 25 +++++++++++--------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index b602bdc..213b4a1 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -271,17 +271,20 @@ class FactorizedFactor(Factor):
             observed_factor_vars_list.append(observed_factor_vars)
 
         merged_factors = []
-        merged_factors_indices = []
-        for i, observed_factor_i_vars in enumerate(observed_factor_vars_list):
-            if i not in merged_factors_indices:
-                merged_factor = self.factors[i]
-                for j in range(i + 1, len(observed_factor_vars_list)):
-                    observed_factor_j_vars = observed_factor_vars_list[j]
-                    if j not in merged_factors_indices:
-                        if len(observed_factor_i_vars.intersection(observed_factor_j_vars)) > 0:
-                            merged_factor = merged_factor.multiply(self.factors[j])
-                            merged_factors_indices.append(j)
-                merged_factors.append(merged_factor)
+        merged_factors_vars_list = []
+        for factor, observed_factor_vars in zip(self.factors, observed_factor_vars_list):
+            # all previous groups that this factor shares variables with become a single group
+            disjoint_factors = []
+            disjoint_factors_vars_list = []
+            for merged_factor, merged_factor_vars in zip(merged_factors, merged_factors_vars_list):
+                if len(merged_factor_vars.intersection(observed_factor_vars)) > 0:
+                    factor = merged_factor.multiply(factor)
+                    observed_factor_vars = observed_factor_vars.union(merged_factor_vars)
+                else:
+                    disjoint_factors.append(merged_factor)
+                    disjoint_factors_vars_list.append(merged_factor_vars)
+            merged_factors = disjoint_factors + [factor]
+            merged_factors_vars_list = disjoint_factors_vars_list + [observed_factor_vars]
         self.factors = merged_factors
 
     def reduce(self, vrs, values):
-- 
2.43.0


From 8576d97e5e90df3382acff26cd71c767ed681f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 42/54] fix: factorised factors with more than one factor could
 not be normalized

---
 .../factors/experimental/factorised_factor.py  | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 213b4a1..e29b61a 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -158,8 +158,7 @@ class FactorizedFactor(Factor):
 
         :return: The normalized factor.
         """
-        factor_copy = self.copy()
-        factor_copy._merge_dependent_factors()
+        factor_copy = self._merge_dependent_factors()
         for i, factor_i in enumerate(factor_copy.factors):
             factor_copy.factors[i] = factor_i.normalize()
         return factor_copy
@@ -241,18 +240,9 @@ class FactorizedFactor(Factor):
         :rtype: FactorizedFactor
         """
         # TODO: Add tests for this function
-        merged_factors = []
-        already_merged_factor_indices = []
-        for i, factor_i in enumerate(self.factors):
-            factor_i_merged = factor_i.copy()
-            for j in range(i + 1, len(self.factors)):
-                factor_j = self.factors[j]
-                if j not in already_merged_factor_indices:
-                    if set(factor_i.var_names).intersection(set(factor_j.varnames)) > 0:
-                        factor_i_merged = factor_i_merged.multiply(factor_j)
-                        already_merged_factor_indices.append(j)
-            merged_factors.append(factor_i_merged)
-        return FactorizedFactor(merged_factors)
+        factor_copy = self.copy()
+        factor_copy._merge_factors_with_shared_scope(set(self.var_names))
+        return factor_copy
 
     def _merge_factors_with_shared_scope(self, vrs_set):
         """
-- 
2.43.0


From 1f0195e88df2f3237f9ed3c7bd7d098e99f53346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 43/54] fix: factorised factors could not be reduced by
 evidence for all variables of a factor and others

---
 veroku/factors/experimental/factorised_factor.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index e29b61a..29439e5 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -292,13 +292,12 @@ class FactorizedFactor(Factor):
         reduced_factors = []
         additional_log_weight = 0.0
         for factor in self.factors:
-            factor_var_names = factor.var_names
-            if set(vrs) == set(factor_var_names):
-                additional_log_weight += factor.log_potential(x_val=values, vrs=vrs)
-            elif len(set(vrs).intersection(set(factor_var_names))) > 0:
-                subset_vrs, subset_values = get_subset_evidence(
-                    all_evidence_dict=all_evidence_dict, subset_vars=factor.var_names
-                )
+            subset_vrs, subset_values = get_subset_evidence(
+                all_evidence_dict=all_evidence_dict, subset_vars=factor.var_names
+            )
+            if set(subset_vrs) == set(factor.var_names):
+                additional_log_weight += factor.log_potential(x_val=subset_values, vrs=subset_vrs)
+            elif len(subset_vrs) > 0:
                 reduced_factor = factor.reduce(subset_vrs, subset_values)
                 reduced_factors.append(reduced_factor)
             else:
-- 
2.43.0


From e0272f1fd9bdacc49d16f1b056aa52ba955b8943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 44/54] fix: equality of factorised factors ignored the
 tolerances and how often a factor was present

---
 veroku/factors/experimental/factorised_factor.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 29439e5..0676ed8 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -350,21 +350,10 @@ class FactorizedFactor(Factor):
         """
         if not isinstance(factor, FactorizedFactor):
             # TODO: find a better solution here
-            return self.equals(FactorizedFactor([factor]))
+            return self.equals(FactorizedFactor([factor]), rtol=rtol, atol=atol)
         if set(factor.var_names) != set(self.var_names):
             return False
-        if len(self.factors) != len(factor.factors):
-            return self.joint_distribution.equals(factor.joint_distribution)
-
-        self_comps_with_cpoies_in_factor = []
-        for i, self_factor_i in enumerate(self.factors):
-            if i not in self_comps_with_cpoies_in_factor:
-                for other_factor_j in factor.factors:
-                    if self_factor_i.equals(other_factor_j):
-                        self_comps_with_cpoies_in_factor.append(i)
-        if len(self_comps_with_cpoies_in_factor) == len(self.factors):
-            return True
-        return False
+        return self.joint_distribution.equals(factor.joint_distribution, rtol=rtol, atol=atol)
 
     def show(self):
         """
-- 
2.43.0


From fdec4243ec9b193135e8afb0516012d27705c6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 45/54] fix: KL divergence and vacuousness of some factorised
 factors raised an exception

---
 veroku/factors/experimental/factorised_factor.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/veroku/factors/experimental/factorised_factor.py b/veroku/factors/experimental/factorised_factor.py
index 0676ed8..1062a18 100644
--- a/veroku/factors/experimental/factorised_factor.py
+++ b/veroku/factors/experimental/factorised_factor.py
@@ -111,14 +111,7 @@ class FactorizedFactor(Factor):
         :return: The result of the check.
         :rtype: Bool
         """
-        all_vacuous = all([factor._is_vacuous for factor in self.factors])
-        if all_vacuous:
-            return True
-        none_vacuous = all([not factor._is_vacuous for factor in self.factors])
-        if none_vacuous:
-            return False
-        # TODO: implement this
-        raise NotImplementedError()
+        return self.joint_distribution.is_vacuous
 
     def distance_from_vacuous(self):
         """
@@ -140,7 +133,7 @@ class FactorizedFactor(Factor):
         :rtype: float
         """
         # TODO: Make this more efficient.
-        return self.joint_distribution.kl_divergence(factor)
+        return self.joint_distribution.kl_divergence(factor.joint_distribution)
 
     @property
     def num_factors(self):
-- 
2.43.0


From 2a4cf342e46418f6da881e9e07690194b6078d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 46/54] fix: Gaussians in covariance form with very small or
 large weights were equal to each other whatever their weights

---
 veroku/factors/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 6189132..a6b3b9c 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -290,7 +290,7 @@ class Gaussian(Factor):
         Helper function for check equivalence of covariance form parameters.
         """
 
-        if not np.isclose(self.get_weight(), gaussian.get_weight(), rtol=rtol, atol=atol, equal_nan=False):
+        if not np.isclose(self.get_log_weight(), gaussian.get_log_weight(), rtol=rtol, atol=atol, equal_nan=False):
             return False
         gaussian._reorder_parameters(self.var_names)
         if not np.allclose(self.mean, gaussian.get_mean(), rtol=rtol, atol=atol, equal_nan=False):
-- 
2.43.0


From 4c2c06836d57db020646fac8beccc9837cd42898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:51 +0000
Subject: [PATCH 47/54] fix: comparing a Gaussian in covariance form with one
 that has no covariance form raised an exception

---
 veroku/factors/gaussian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index a6b3b9c..1ce9ca9 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -324,6 +324,9 @@ class Gaussian(Factor):
             gaussian_copy._reorder_parameters(self._var_names)
         if gaussian_copy._is_vacuous and self._is_vacuous:
             return True
+        if not gaussian_copy._is_proper():
+            # Such a factor has no covariance form.
+            self._update_canform()
         if self.canform:
             if self._canform_equals(gaussian_copy, rtol, atol):
                 return True
-- 
2.43.0


From c2298d1f6dcfd3cdc4777f26be29f7813a1006bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:34 +0000
Subject: [PATCH 48/54] fix: the maximum of Gaussian mixtures could not be
 found (starting point was a matrix)

---
 veroku/factors/experimental/gaussian_mixture.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/experimental/gaussian_mixture.py b/veroku/factors/experimental/gaussian_mixture.py
index 17ebe18..4f715d7 100644
--- a/veroku/factors/experimental/gaussian_mixture.py
+++ b/veroku/factors/experimental/gaussian_mixture.py
@@ -482,7 +482,7 @@ class GaussianMixture(Factor):
 
         for comp in self.components:
             res = minimize(neg_gmm_log_pot,
-                           x0=comp.get_mean(),
+                           x0=comp.get_mean().ravel(),
                            method=self.optimization_alg,
                            options={"disp": False})
             x_local_max = res.x
@@ -512,7 +512,7 @@ class GaussianMixture(Factor):
             return self.potential(x_vals)
 
         for comp in self.components:
-            res = minimize(gmm_pot, x0=comp.get_mean(), method="BFGS", options={"disp": False})
+            res = minimize(gmm_pot, x0=comp.get_mean().ravel(), method="BFGS", options={"disp": False})
             x_local_min = res.x
             if res.success:
                 success = True
-- 
2.43.0


From b665cffee57ff9bb553ade46f8e445a1c9a3d688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:24 +0000
Subject: [PATCH 49/54] fix: categorical factors could not be divided by
 factors with other variables

---
 veroku/factors/categorical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index b5e5967..80cb4ee 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -369,7 +369,8 @@ class Categorical(Factor):
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-        vars_assignment_names = [self.vars_assignments_names_dict[var] for var in
+        vars_assignments_names_union_dict = {**factor.vars_assignments_names_dict, **self.vars_assignments_names_dict}
+        vars_assignment_names = [vars_assignments_names_union_dict[var] for var in
                                   result_vars]
         return Categorical(var_names=result_vars, log_probs_tensor=result_tensor,
                            variables_assignment_names=vars_assignment_names)
@@ -391,7 +392,8 @@ class Categorical(Factor):
         )
         _check_consistent_assignment_names(self.vars_assignments_names_dict,
                                            factor.vars_assignments_names_dict)
-        vars_assignment_names = [self.vars_assignments_names_dict[var] for var in
+        vars_assignments_names_union_dict = {**factor.vars_assignments_names_dict, **self.vars_assignments_names_dict}
+        vars_assignment_names = [vars_assignments_names_union_dict[var] for var in
                                   result_vars]
         return Categorical(var_names=result_vars, log_probs_tensor=result_tensor,
                            variables_assignment_names=vars_assignment_names)
-- 
2.43.0


From 0549a2f58181e129c5e35fb75293929979e6ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 50/54] fix: assignment names that name some value twice were
 accepted when there were too many of them

---
 veroku/factors/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 80cb4ee..b85a6fd 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -137,7 +137,7 @@ class Categorical(Factor):
             for var_name, assignments_names, cardinality in zip(var_names, variables_assignment_names, cardinalities):
                 assert_error_msg = \
                     f"Incorrect number of unique assignment names provided for variable {var_name} (should equal variable card ({cardinality})) "
-                assert cardinality == len(set(assignments_names)), assert_error_msg
+                assert cardinality == len(assignments_names) == len(set(assignments_names)), assert_error_msg
                 var_assignment_names_dict[var_name] = tuple(copy.deepcopy(assignments_names))
         else:
             var_assignment_names_dict = {var_name: tuple(range(var_card)) for var_name, var_card in zip(var_names, cardinalities)}
-- 
2.43.0


From c37e92576a60278f5d66c472ae5cb68e64daf4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:56 +0000
Subject: [PATCH 51/54] fix: categorical factors of which not all values have
 texts as names could not be plotted

---
 veroku/factors/categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index b85a6fd..6139fad 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -600,7 +600,7 @@ class Categorical(Factor):
                 if isinstance(elem, float):
                     processed_assignment_value_name = f"{elem:.2f}"
                 else:
-                    processed_assignment_value_name = elem
+                    processed_assignment_value_name = str(elem)
                 processed_assignment_value_names.append(processed_assignment_value_name)
             x_label = ", ".join(processed_assignment_value_names)
             return x_label
-- 
2.43.0


From 4efe7d4191ac2df5270843f27bd044ef675a2ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 52/54] fix: factors changed when the lists of names and
 cardinalities they had been made from did

---
 veroku/factors/_factor.py            | 2 +-
 veroku/factors/categorical.py        | 2 +-
 veroku/factors/sparse_categorical.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/veroku/factors/_factor.py b/veroku/factors/_factor.py
index f5112ab..fc7cef7 100644
--- a/veroku/factors/_factor.py
+++ b/veroku/factors/_factor.py
@@ -22,7 +22,7 @@ class Factor:
         if len(set(var_names)) != len(var_names):
             raise ValueError("duplicate variables in var_names: ", var_names)
 
-        self._var_names = var_names
+        self._var_names = copy.copy(var_names)
         if not isinstance(var_names, list):
             self._var_names = [var_names]
 
diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index 6139fad..cf361cf 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -128,7 +128,7 @@ class Categorical(Factor):
             self.log_probs_tensor = log_probs_tensor.copy()
         # TODO: remove this
         self.var_cards = dict(zip(var_names, cardinalities))
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.copy(cardinalities)
         if variables_assignment_names is not None:
             assrt_error_msg = f"variables_assignment_names should have same length as var_names" \
                               f" (received {variables_assignment_names} and {var_names})"
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 28e6d7a..77833f4 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -421,7 +421,7 @@ class SparseCategorical(Factor):
             log_probs_table = {assignment: np.log(prob) for assignment, prob in probs_table.items()}
         self.log_probs_table = _fast_copy_probs_table(log_probs_table)
         self.var_cards = dict(zip(var_names, cardinalities))
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.copy(cardinalities)
         self.default_log_prob = default_log_prob
 
     # TODO: Improve this to take missing assignments into account. Alternatively: add functionality to sparsify factor
-- 
2.43.0


From 49d334d796f354e67e3693164fff1faccdb3cb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 53/54] fix: the special evidence of a cluster graph changed
 when the dictionary it had been made from did

---
 veroku/cluster_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/veroku/cluster_graph.py b/veroku/cluster_graph.py
index 0721d6b..8e5e6d2 100644
--- a/veroku/cluster_graph.py
+++ b/veroku/cluster_graph.py
@@ -141,7 +141,7 @@ class ClusterGraph:
         self.sync_message_passing_max_distances = []
         if special_evidence is None:
             special_evidence = dict()
-        self.special_evidence = special_evidence
+        self.special_evidence = dict(special_evidence)
         all_evidence_vars = set(self.special_evidence.keys())
         if evidence is not None:
             evidence_vars = set(evidence.keys())
-- 
2.43.0


From e36522d9e67993adb97736e1e233e2c1f2228dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:25 +0000
Subject: [PATCH 54/54] fix: templates changed when the parameters they had
 been made from did

---
 veroku/factors/_factor_template.py                | 7 ++++---
 veroku/factors/categorical.py                     | 4 ++--
 veroku/factors/experimental/nonlinear_gaussian.py | 2 +-
 veroku/factors/gaussian.py                        | 4 ++--
 veroku/factors/sparse_categorical.py              | 2 +-
 5 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/veroku/factors/_factor_template.py b/veroku/factors/_factor_template.py
index c33f034..218102a 100644
--- a/veroku/factors/_factor_template.py
+++ b/veroku/factors/_factor_template.py
@@ -4,6 +4,7 @@ This module contains an abstract parent class, defining the some common default
 
 
 from abc import ABC
+import copy
 
 
 class FactorTemplate(ABC):
@@ -24,15 +25,15 @@ class FactorTemplate(ABC):
         self._conditioning_var_templates = None
         self._conditional_var_templates = None
         if (conditioning_var_templates is None) and (conditional_var_templates is None):
-            self._var_templates = var_templates
+            self._var_templates = copy.copy(var_templates)
         elif (conditioning_var_templates is None) or (conditional_var_templates is None):
             error_msg = (
                 "neither or both of conditioning_var_templates and conditional_var_templates should be None"
             )
             raise ValueError(error_msg)
         else:
-            self._conditioning_var_templates = conditioning_var_templates
-            self._conditional_var_templates = conditional_var_templates
+            self._conditioning_var_templates = copy.copy(conditioning_var_templates)
+            self._conditional_var_templates = copy.copy(conditional_var_templates)
 
     def formattable(self, format_dict):
         """
diff --git a/veroku/factors/categorical.py b/veroku/factors/categorical.py
index cf361cf..cbd6544 100644
--- a/veroku/factors/categorical.py
+++ b/veroku/factors/categorical.py
@@ -655,8 +655,8 @@ class CategoricalTemplate(FactorTemplate):
         """
         super().__init__(var_templates=var_templates)
         self.log_probs_tensor = copy.deepcopy(log_probs_tensor)
-        self.cardinalities = cardinalities
-        self.probs_table = probs_table
+        self.cardinalities = copy.copy(cardinalities)
+        self.probs_table = copy.copy(probs_table)
 
     def make_factor(self, format_dict=None, var_names=None):
         """
diff --git a/veroku/factors/experimental/nonlinear_gaussian.py b/veroku/factors/experimental/nonlinear_gaussian.py
index cfc1629..3585fcd 100644
--- a/veroku/factors/experimental/nonlinear_gaussian.py
+++ b/veroku/factors/experimental/nonlinear_gaussian.py
@@ -687,7 +687,7 @@ class NonLinearGaussianTemplate(FactorTemplate):
             conditional_var_templates=conditional_var_templates,
         )
         self.transition_function = transition_function
-        self.noise_cov = noise_cov
+        self.noise_cov = noise_cov.copy()
 
     def make_factor(self, format_dict=None, conditioning_vars=None, conditional_vars=None):
         """
diff --git a/veroku/factors/gaussian.py b/veroku/factors/gaussian.py
index 1ce9ca9..e816102 100644
--- a/veroku/factors/gaussian.py
+++ b/veroku/factors/gaussian.py
@@ -1093,8 +1093,8 @@ class GaussianTemplate(FactorTemplate):
         """
 
         super().__init__(var_templates=var_templates)
-        self.prec = gaussian_parameters["prec"]
-        self.h_vec = gaussian_parameters["h"]
+        self.prec = gaussian_parameters["prec"].copy()
+        self.h_vec = gaussian_parameters["h"].copy()
         self.g_val = gaussian_parameters["g"]
 
     def make_factor(self, format_dict=None, var_names=None):
diff --git a/veroku/factors/sparse_categorical.py b/veroku/factors/sparse_categorical.py
index 77833f4..ec385bc 100644
--- a/veroku/factors/sparse_categorical.py
+++ b/veroku/factors/sparse_categorical.py
@@ -1002,7 +1002,7 @@ class SparseCategoricalTemplate(FactorTemplate):
         # TODO: Complete and improve docstring.
         super().__init__(var_templates=var_templates)
         self.probs_table = _fast_copy_probs_table(probs_table)
-        self.cardinalities = cardinalities
+        self.cardinalities = copy.copy(cardinalities)
 
     def make_factor(self, format_dict=None, var_names=None):
         """
-- 
2.43.0

