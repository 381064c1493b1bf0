From aca46d9e05afc999cbfa67437ad4054c6697e915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 01/28] fix: include the first row when deciding whether a
 column is constant

---
 bartpy/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/data.py b/bartpy/data.py
index baf8e7b..9bfa535 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -24,7 +24,7 @@ def is_not_constant(series: np.ndarray) -> bool:
     if len(series) <= 1:
         return False
     first_value = None
-    for i in range(1, len(series)):
+    for i in range(0, len(series)):
         # if not series.mask[i] and series.data[i] != first_value:
         if series[i] != first_value:
             if first_value is None:
-- 
2.43.0


From 10576d3b368415f0c8a25b08d92c367f1056b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 02/28] fix: normalise a constant target to finite values

---
 bartpy/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bartpy/data.py b/bartpy/data.py
index 9bfa535..dbdb117 100644
--- a/bartpy/data.py
+++ b/bartpy/data.py
@@ -250,6 +250,8 @@ class Target(object):
         array([-0.5,  0. ,  0.5])
         """
         y_min, y_max = np.min(y), np.max(y)
+        if y_max == y_min:
+            return np.zeros(len(y))
         return -0.5 + ((y - y_min) / (y_max - y_min))
 
     def unnormalize_y(self, y: np.ndarray) -> np.ndarray:
-- 
2.43.0


From bcea748638443131b1937d589694f83a02cd8359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 03/28] fix: size in-sample predictions by the training rows,
 not by the first node's rows

---
 bartpy/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/tree.py b/bartpy/tree.py
index fb6b58f..395fd27 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -85,7 +85,7 @@ class Tree:
             return self._prediction
         for leaf in self.leaf_nodes:
             if self._prediction is None:
-                self._prediction = np.zeros(self.nodes[0].data.X.n_obsv)
+                self._prediction = np.zeros(len(self.nodes[0].data.mask))
             self._prediction[leaf.split.condition()] = leaf.predict()
         self.cache_up_to_date = True
         return self._prediction
-- 
2.43.0


From 7b8102ce5bf2cd492b0654cda0fc8acf9ed09a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 04/28] fix: link the internal nodes of a copied tree to the
 copied children

---
 bartpy/tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bartpy/tree.py b/bartpy/tree.py
index 395fd27..044f91c 100644
--- a/bartpy/tree.py
+++ b/bartpy/tree.py
@@ -171,4 +171,9 @@ def deep_copy_tree(tree: Tree):
     Tree
         Version of the tree optimized to be low memory
     """
-    return Tree([deep_copy_node(x) for x in tree.nodes])
+    copies = [deep_copy_node(x) for x in tree.nodes]
+    lookup = {id(node): copied for node, copied in zip(tree.nodes, copies)}
+    for copied in copies:
+        copied._left_child = lookup.get(id(copied.left_child), copied.left_child)
+        copied._right_child = lookup.get(id(copied.right_child), copied.right_child)
+    return Tree(copies)
-- 
2.43.0


From ec196ed6a38d56db54b26c18f2128b4191019296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 05/28] fix: give new trees their share of the target instead
 of None

---
 bartpy/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/model.py b/bartpy/model.py
index b1f1742..cac2d2b 100644
--- a/bartpy/model.py
+++ b/bartpy/model.py
@@ -44,7 +44,7 @@ class Model:
     def initialize_trees(self) -> List[Tree]:
         trees = [Tree([LeafNode(Split(deepcopy(self.data)))]) for _ in range(self.n_trees)]
         for tree in trees:
-            tree.update_y(tree.update_y(self.data.y.values / self.n_trees))
+            tree.update_y(self.data.y.values / self.n_trees)
         return trees
 
     def residuals(self) -> np.ndarray:
-- 
2.43.0


From 6afb5554c26662c86db0cea2da43afbdb0b44e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 06/28] fix: use the leaf prior variance throughout the
 marginal likelihood ratio

---
 bartpy/samplers/oblivioustrees/likihoodratio.py    | 8 ++++----
 bartpy/samplers/unconstrainedtree/likihoodratio.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/likihoodratio.py b/bartpy/samplers/oblivioustrees/likihoodratio.py
index b6c2b17..ac0f202 100644
--- a/bartpy/samplers/oblivioustrees/likihoodratio.py
+++ b/bartpy/samplers/oblivioustrees/likihoodratio.py
@@ -17,12 +17,12 @@ def log_grow_ratio(combined_node: LeafNode, left_node: LeafNode, right_node: Lea
     n_l = left_node.data.X.n_obsv
     n_r = right_node.data.X.n_obsv
 
-    first_term = (var * (var + n * sigma_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
+    first_term = (var * (var + n * var_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
     first_term = np.log(np.sqrt(first_term))
 
-    left_resp_contribution = np.square(left_node.data.y.summed_y()) / (var + n_l * sigma_mu)
-    right_resp_contribution = np.square(right_node.data.y.summed_y()) / (var + n_r * sigma_mu)
-    combined_resp_contribution = np.square(combined_node.data.y.summed_y()) / (var + n * sigma_mu)
+    left_resp_contribution = np.square(left_node.data.y.summed_y()) / (var + n_l * var_mu)
+    right_resp_contribution = np.square(right_node.data.y.summed_y()) / (var + n_r * var_mu)
+    combined_resp_contribution = np.square(combined_node.data.y.summed_y()) / (var + n * var_mu)
 
     resp_contribution = left_resp_contribution + right_resp_contribution - combined_resp_contribution
 
diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index e0bf3df..c9b1904 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -17,16 +17,16 @@ def log_grow_ratio(combined_node: LeafNode, left_node: LeafNode, right_node: Lea
     n_l = left_node.data.X.n_obsv
     n_r = right_node.data.X.n_obsv
 
-    first_term = (var * (var + n * sigma_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
+    first_term = (var * (var + n * var_mu)) / ((var + n_l * var_mu) * (var + n_r * var_mu))
     first_term = np.log(np.sqrt(first_term))
 
     combined_y_sum = combined_node.data.y.summed_y()
     left_y_sum = left_node.data.y.summed_y()
     right_y_sum = right_node.data.y.summed_y()
 
-    left_resp_contribution = np.square(left_y_sum) / (var + n_l * sigma_mu)
-    right_resp_contribution = np.square(right_y_sum) / (var + n_r * sigma_mu)
-    combined_resp_contribution = np.square(combined_y_sum) / (var + n * sigma_mu)
+    left_resp_contribution = np.square(left_y_sum) / (var + n_l * var_mu)
+    right_resp_contribution = np.square(right_y_sum) / (var + n_r * var_mu)
+    combined_resp_contribution = np.square(combined_y_sum) / (var + n * var_mu)
 
     resp_contribution = left_resp_contribution + right_resp_contribution - combined_resp_contribution
 
-- 
2.43.0


From a9b74c59995b1e128383c6612e1625ff3cc9bd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 07/28] fix: compare the log of the uniform draw with the log
 acceptance ratio

---
 bartpy/samplers/oblivioustrees/treemutation.py    | 2 +-
 bartpy/samplers/unconstrainedtree/treemutation.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/treemutation.py b/bartpy/samplers/oblivioustrees/treemutation.py
index 292bfc0..cb8fc21 100644
--- a/bartpy/samplers/oblivioustrees/treemutation.py
+++ b/bartpy/samplers/oblivioustrees/treemutation.py
@@ -40,7 +40,7 @@ class UnconstrainedTreeMutationSampler(Sampler):
     def sample(self, model: Model, tree: Tree) -> Optional[List[TreeMutation]]:
         proposals: List[TreeMutation] = self.proposer.propose(tree)
         ratio = np.sum([self.likihood_ratio.log_probability_ratio(model, tree, x) for x in proposals])
-        if self._scalar_sampler.sample() < ratio:
+        if np.log(self._scalar_sampler.sample()) < ratio:
             return proposals
         else:
             return None
diff --git a/bartpy/samplers/unconstrainedtree/treemutation.py b/bartpy/samplers/unconstrainedtree/treemutation.py
index ce82dbe..b60b7c2 100644
--- a/bartpy/samplers/unconstrainedtree/treemutation.py
+++ b/bartpy/samplers/unconstrainedtree/treemutation.py
@@ -1,5 +1,7 @@
 from typing import Optional
 
+import numpy as np
+
 from bartpy.model import Model
 from bartpy.mutation import TreeMutation
 from bartpy.samplers.sampler import Sampler
@@ -38,7 +40,7 @@ class UnconstrainedTreeMutationSampler(Sampler):
     def sample(self, model: Model, tree: Tree) -> Optional[TreeMutation]:
         proposal = self.proposer.propose(tree)
         ratio = self.likihood_ratio.log_probability_ratio(model, tree, proposal)
-        if self._scalar_sampler.sample() < ratio:
+        if np.log(self._scalar_sampler.sample()) < ratio:
             return proposal
         else:
             return None
-- 
2.43.0


From b98db35954c70a6efc75b53ace6b5b00472a4a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 08/28] fix: do not divide the leaf posterior variance by the
 number of trees

---
 bartpy/samplers/leafnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/samplers/leafnode.py b/bartpy/samplers/leafnode.py
index d70b702..3625fbb 100644
--- a/bartpy/samplers/leafnode.py
+++ b/bartpy/samplers/leafnode.py
@@ -30,7 +30,7 @@ class LeafNodeSampler(Sampler):
         likihood_mean = node.data.y.summed_y() / n
         posterior_variance = 1. / (1. / prior_var + 1. / likihood_var)
         posterior_mean = likihood_mean * (prior_var / (likihood_var + prior_var))
-        return posterior_mean + (self._scalar_sampler.sample() * np.power(posterior_variance / model.n_trees, 0.5))
+        return posterior_mean + (self._scalar_sampler.sample() * np.power(posterior_variance, 0.5))
 
 
 # class VectorizedLeafNodeSampler(Sampler):
-- 
2.43.0


From b59de8f9eeff9e6ad091ebe65b75616450ad0dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 09/28] fix: evaluate the reverse move of a proposal in the
 tree it leads to

---
 .../unconstrainedtree/likihoodratio.py        | 53 +++++++++++++++----
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/bartpy/samplers/unconstrainedtree/likihoodratio.py b/bartpy/samplers/unconstrainedtree/likihoodratio.py
index c9b1904..41c35cd 100644
--- a/bartpy/samplers/unconstrainedtree/likihoodratio.py
+++ b/bartpy/samplers/unconstrainedtree/likihoodratio.py
@@ -4,7 +4,7 @@ import numpy as np
 
 from bartpy.model import Model
 from bartpy.mutation import TreeMutation, GrowMutation, PruneMutation
-from bartpy.node import LeafNode, TreeNode
+from bartpy.node import DecisionNode, LeafNode, TreeNode
 from bartpy.samplers.treemutation import TreeMutationLikihoodRatio
 from bartpy.sigma import Sigma
 from bartpy.tree import Tree
@@ -78,29 +78,42 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         return - log_grow_ratio(proposal.updated_node, proposal.existing_node.left_child, proposal.existing_node.right_child, model.sigma, model.sigma_m)
 
     def log_grow_transition_ratio(self, tree: Tree, mutation: GrowMutation):
-        prob_prune_selected = - np.log(n_prunable_decision_nodes(tree) + 1)
+        n_prunable, n_splittable = n_prunable_decision_nodes(tree), n_splittable_leaf_nodes(tree)
+        n_prunable_after = n_prunable + (0 if has_leaf_sibling(tree, mutation.existing_node) else 1)
+        n_splittable_after = n_splittable - 1 + n_splittable_children(mutation.updated_node)
+
+        prob_prune_selected = - np.log(n_prunable_after)
         prob_grow_selected = log_probability_split_within_tree(tree, mutation)
 
         prob_selection_ratio = prob_prune_selected - prob_grow_selected
-        prune_grow_ratio = np.log(self.prob_method[1] / self.prob_method[0])
+        prune_grow_ratio = self.log_prob_prune(n_splittable_after) - self.log_prob_grow(n_prunable)
 
         return prune_grow_ratio + prob_selection_ratio
 
     def log_prune_transition_ratio(self, tree: Tree, mutation: PruneMutation):
-        if n_splittable_leaf_nodes(tree) == 1:
-            prob_grow_node_selected = - np.inf  # Infinitely unlikely to be able to grow a null tree
-        else:
-            prob_grow_node_selected = - np.log(n_splittable_leaf_nodes(tree) - 1)
+        n_prunable, n_splittable = n_prunable_decision_nodes(tree), n_splittable_leaf_nodes(tree)
+        n_prunable_after = n_prunable - (0 if has_leaf_sibling(tree, mutation.existing_node) else 1)
+        n_splittable_after = n_splittable + 1 - n_splittable_children(mutation.existing_node)
+
+        prob_grow_node_selected = - np.log(n_splittable_after)
         prob_split = log_probability_split_within_node(GrowMutation(mutation.updated_node, mutation.existing_node))
         prob_grow_selected = prob_grow_node_selected + prob_split
 
-        prob_prune_selected = - np.log(n_prunable_decision_nodes(tree))
+        prob_prune_selected = - np.log(n_prunable)
 
         prob_selection_ratio = prob_grow_selected - prob_prune_selected
-        grow_prune_ratio = np.log(self.prob_method[0] / self.prob_method[1])
+        grow_prune_ratio = self.log_prob_grow(n_prunable_after) - self.log_prob_prune(n_splittable)
 
         return grow_prune_ratio + prob_selection_ratio
 
+    def log_prob_grow(self, n_prunable: int) -> float:
+        """Log probability of proposing a grow, which is certain if nothing can be pruned"""
+        return np.log(self.prob_method[0]) if n_prunable > 0 else 0.0
+
+    def log_prob_prune(self, n_splittable: int) -> float:
+        """Log probability of proposing a prune, which is certain if nothing can be grown"""
+        return np.log(self.prob_method[1]) if n_splittable > 0 else 0.0
+
     @staticmethod
     def log_tree_ratio_grow(model: Model, tree: Tree, proposal: GrowMutation):
         denominator = log_probability_node_not_split(model, proposal.existing_node)
@@ -108,7 +121,7 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         prob_left_not_split = log_probability_node_not_split(model, proposal.updated_node.left_child)
         prob_right_not_split = log_probability_node_not_split(model, proposal.updated_node.right_child)
         prob_updated_node_split = log_probability_node_split(model, proposal.updated_node)
-        prob_chosen_split = log_probability_split_within_tree(tree, proposal)
+        prob_chosen_split = log_probability_split_within_node(proposal)
         numerator = prob_left_not_split + prob_right_not_split + prob_updated_node_split + prob_chosen_split
 
         return numerator - denominator
@@ -126,6 +139,26 @@ class UniformTreeMutationLikihoodRatio(TreeMutationLikihoodRatio):
         return numerator - denominator
 
 
+def has_leaf_sibling(tree: Tree, node: TreeNode) -> bool:
+    """
+    Whether the other child of the node's parent is a leaf
+    i.e. whether the parent is prunable exactly when the node is a leaf
+    """
+    for parent in tree.decision_nodes:
+        if parent.left_child is node:
+            return type(parent.right_child) == LeafNode
+        if parent.right_child is node:
+            return type(parent.left_child) == LeafNode
+    return False
+
+
+def n_splittable_children(node: DecisionNode) -> int:
+    """
+    The number of leaf children of the node that can be split
+    """
+    return sum(1 for x in [node.left_child, node.right_child] if x.is_splittable())
+
+
 def n_prunable_decision_nodes(tree: Tree) -> int:
     """
     The number of prunable decision nodes
-- 
2.43.0


From 00bb817d162f06ef5a2cecd91bc2e67edb5b7110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 10/28] fix: make no proposal for a tree that can neither be
 grown nor pruned

---
 bartpy/samplers/oblivioustrees/treemutation.py    | 2 ++
 bartpy/samplers/unconstrainedtree/treemutation.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/bartpy/samplers/oblivioustrees/treemutation.py b/bartpy/samplers/oblivioustrees/treemutation.py
index cb8fc21..7b42548 100644
--- a/bartpy/samplers/oblivioustrees/treemutation.py
+++ b/bartpy/samplers/oblivioustrees/treemutation.py
@@ -38,6 +38,8 @@ class UnconstrainedTreeMutationSampler(Sampler):
         self._scalar_sampler = scalar_sampler
 
     def sample(self, model: Model, tree: Tree) -> Optional[List[TreeMutation]]:
+        if len(tree.splittable_leaf_nodes) == 0 and len(tree.prunable_decision_nodes) == 0:
+            return None
         proposals: List[TreeMutation] = self.proposer.propose(tree)
         ratio = np.sum([self.likihood_ratio.log_probability_ratio(model, tree, x) for x in proposals])
         if np.log(self._scalar_sampler.sample()) < ratio:
diff --git a/bartpy/samplers/unconstrainedtree/treemutation.py b/bartpy/samplers/unconstrainedtree/treemutation.py
index b60b7c2..3ccde71 100644
--- a/bartpy/samplers/unconstrainedtree/treemutation.py
+++ b/bartpy/samplers/unconstrainedtree/treemutation.py
@@ -38,6 +38,8 @@ class UnconstrainedTreeMutationSampler(Sampler):
         self._scalar_sampler = scalar_sampler
 
     def sample(self, model: Model, tree: Tree) -> Optional[TreeMutation]:
+        if len(tree.splittable_leaf_nodes) == 0 and len(tree.prunable_decision_nodes) == 0:
+            return None
         proposal = self.proposer.propose(tree)
         ratio = self.likihood_ratio.log_probability_ratio(model, tree, proposal)
         if np.log(self._scalar_sampler.sample()) < ratio:
-- 
2.43.0


From a19a5ee115a965e2089968efc2a106606b118e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 11/28] fix: only grow leaves that can be split in the
 oblivious tree proposer

---
 bartpy/samplers/oblivioustrees/proposer.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/bartpy/samplers/oblivioustrees/proposer.py b/bartpy/samplers/oblivioustrees/proposer.py
index 4ceeb05..fe4bf7a 100644
--- a/bartpy/samplers/oblivioustrees/proposer.py
+++ b/bartpy/samplers/oblivioustrees/proposer.py
@@ -13,11 +13,17 @@ from bartpy.tree import Tree
 
 
 def grow_mutations(tree: Tree) -> List[TreeMutation]:
-    return [GrowMutation(x, sample_split_node(x)) for x in tree.leaf_nodes]
+    splittable_nodes = tree.splittable_leaf_nodes
+    if len(splittable_nodes) == 0:
+        raise NoSplittableVariableException()
+    return [GrowMutation(x, sample_split_node(x)) for x in splittable_nodes]
 
 
 def prune_mutations(tree: Tree) -> List[TreeMutation]:
-    return [PruneMutation(x, LeafNode(x.split, depth=x.depth)) for x in tree.prunable_decision_nodes]
+    prunable_nodes = tree.prunable_decision_nodes
+    if len(prunable_nodes) == 0:
+        raise NoPrunableNodeException()
+    return [PruneMutation(x, LeafNode(x.split, depth=x.depth)) for x in prunable_nodes]
 
 
 class UniformMutationProposer(TreeMutationProposer):
@@ -61,11 +67,5 @@ def sample_split_node(node: LeafNode) -> DecisionNode:
     Split a leaf node into a decision node with two leaf children
     The variable and value to split on is determined by sampling from their respective distributions
     """
-    if node.is_splittable():
-        conditions = sample_split_condition(node)
-        return split_node(node, conditions)
-    else:
-        return DecisionNode(node.split,
-                            LeafNode(node.split, depth=node.depth + 1),
-                            LeafNode(node.split, depth=node.depth + 1),
-                            depth=node.depth)
\ No newline at end of file
+    conditions = sample_split_condition(node)
+    return split_node(node, conditions)
-- 
2.43.0


From 465297fe28fd5c9a79a169577874da847f9f80b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 12/28] fix: record the requested fraction of samples when 1 /
 thin is not an integer

---
 bartpy/samplers/modelsampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/samplers/modelsampler.py b/bartpy/samplers/modelsampler.py
index 4d8b997..ee39cd7 100644
--- a/bartpy/samplers/modelsampler.py
+++ b/bartpy/samplers/modelsampler.py
@@ -50,7 +50,7 @@ class ModelSampler(Sampler):
 
         for ss in tqdm(range(n_samples)):
             step_trace_dict = self.step(model, trace_logger)
-            if ss % thin_inverse == 0:
+            if ss % thin_inverse < 1:
                 if store_in_sample_predictions:
                     in_sample_log = trace_logger["In Sample Prediction"](model.predict())
                     if in_sample_log is not None:
-- 
2.43.0


From 6fe7fc5ec65befd57a348336e64aa4af9bf32fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 13/28] fix: do not hand out the same cached random draws from
 copies of a sampler

---
 bartpy/samplers/scalar.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bartpy/samplers/scalar.py b/bartpy/samplers/scalar.py
index 4694e31..d018247 100644
--- a/bartpy/samplers/scalar.py
+++ b/bartpy/samplers/scalar.py
@@ -15,6 +15,10 @@ class NormalScalarSampler():
             self.refresh_cache()
         return self._cache.pop()
 
+    def __getstate__(self):
+        # copies must not repeat the draws cached here
+        return {**self.__dict__, "_cache": []}
+
     def refresh_cache(self):
         self._cache = list(np.random.normal(size=self._cache_size))
 
@@ -31,6 +35,10 @@ class UniformScalarSampler():
             self.refresh_cache()
         return self._cache.pop()
 
+    def __getstate__(self):
+        # copies must not repeat the draws cached here
+        return {**self.__dict__, "_cache": []}
+
     def refresh_cache(self):
         self._cache = list(np.random.uniform(size=self._cache_size))
 
@@ -53,5 +61,9 @@ class DiscreteSampler():
             self.refresh_cache()
         return self._cache.pop()
 
+    def __getstate__(self):
+        # copies must not repeat the draws cached here
+        return {**self.__dict__, "_cache": []}
+
     def refresh_cache(self):
         self._cache = list(np.random.choice(self._values, p=self._probas, size=self._cache_size))
-- 
2.43.0


From 7eb776fa9fb69415601e5e39d4770a6ed45aec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 14/28] fix: return the prediction samples instead of recursing

---
 bartpy/sklearnmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index 7e92b1a..e037734 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -338,7 +338,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         np.ndarray
             prediction samples with dimensionality n_samples * n_points
         """
-        return self.prediction_samples
+        return self._prediction_samples
 
     def from_extract(self, extract: List[Chain], X: np.ndarray, y: np.ndarray) -> 'SklearnModel':
         """
-- 
2.43.0


From 278bd09733099dbfebc7bcac8689b50ff0b56702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 15/28] fix: store an extract in the new model rather than in
 the specification

---
 bartpy/sklearnmodel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index e037734..c2815f5 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -247,7 +247,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
             Error for each observation
         """
         if y is None:
-            return self.model.data.y.unnormalized_y - self.predict(X)
+            return self.data.y.unnormalized_y - self.predict(X)
         else:
             return y - self.predict(X)
 
@@ -360,7 +360,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
         """
         new_model = deepcopy(self)
         combined_chain = self._combine_chains(extract)
-        self._model_samples, self._prediction_samples = combined_chain["model"], combined_chain["in_sample_predictions"]
-        self._acceptance_trace = combined_chain["acceptance"]
+        new_model._model_samples, new_model._prediction_samples = combined_chain["model"], combined_chain["in_sample_predictions"]
+        new_model._acceptance_trace = combined_chain["acceptance"]
         new_model.data = self._convert_covariates_to_data(X, y)
         return new_model
-- 
2.43.0


From dc1e47de4ae06ecff5abeb7404a0e233be8d3a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 16/28] fix: use a tree sampler set through set_params

---
 bartpy/sklearnmodel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bartpy/sklearnmodel.py b/bartpy/sklearnmodel.py
index c2815f5..744f907 100644
--- a/bartpy/sklearnmodel.py
+++ b/bartpy/sklearnmodel.py
@@ -163,6 +163,7 @@ class SklearnModel(BaseEstimator, RegressorMixin):
     def _construct_model(self, X: np.ndarray, y: np.ndarray) -> Model:
         if len(X) == 0 or X.shape[1] == 0:
             raise ValueError("Empty covariate matrix passed")
+        self.schedule.tree_sampler = self.tree_sampler
         self.data = self._convert_covariates_to_data(X, y)
         self.sigma = Sigma(self.sigma_a, self.sigma_b, self.data.y.normalizing_scale)
         self.model = Model(self.data,
-- 
2.43.0


From 91a0649412b2eaef3b8af3e68e1001d92ea91b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 17/28] fix: fit the initialising sklearn tree to the tree's
 own data

---
 bartpy/initializers/sklearntreeinitializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/initializers/sklearntreeinitializer.py b/bartpy/initializers/sklearntreeinitializer.py
index 3455065..80ef22a 100644
--- a/bartpy/initializers/sklearntreeinitializer.py
+++ b/bartpy/initializers/sklearntreeinitializer.py
@@ -20,7 +20,7 @@ class SklearnTreeInitializer(Initializer):
     def __init__(self,
                  max_depth: int=4,
                  min_samples_split: int=2,
-                 loss: str='ls'):
+                 loss: str='squared_error'):
         self.max_depth = max_depth
         self.min_samples_split = min_samples_split
         self.loss = loss
@@ -36,7 +36,7 @@ class SklearnTreeInitializer(Initializer):
         }
 
         clf = GradientBoostingRegressor(**params)
-        fit = clf.fit(tree.nodes[0].data.X.data, tree.nodes[0].data.y.data)
+        fit = clf.fit(tree.nodes[0].data.X.values, tree.nodes[0].data.y.values)
         sklearn_tree = fit.estimators_[0][0].tree_
         map_sklearn_tree_into_bartpy(tree, sklearn_tree)
 
-- 
2.43.0


From 0fed43557a10f152c7b95b9367bc2c4d5b058a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 18/28] fix: predict training rows and report residuals of the
 combined model in the residual extensions

---
 bartpy/extensions/baseestimator.py | 12 ++++++++----
 bartpy/extensions/ols.py           |  7 ++++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index da6a4df..288beb0 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -1,6 +1,6 @@
 import numpy as np
 from sklearn.base import RegressorMixin, clone
-from sklearn.linear_model.base import LinearRegression
+from sklearn.linear_model import LinearRegression
 
 from bartpy.sklearnmodel import SklearnModel
 
@@ -14,18 +14,22 @@ class ResidualBART(SklearnModel):
         if base_estimator is not None:
             self.base_estimator = clone(base_estimator)
         else:
-            base_estimator = LinearRegression()
-        self.base_estimator = base_estimator
+            self.base_estimator = LinearRegression()
+        self.target = None
         super().__init__(**kwargs)
 
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'ResidualBART':
         self.base_estimator.fit(X, y)
+        self.target = y
         SklearnModel.fit(self, X, y - self.base_estimator.predict(X))
         return self
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
         if X is None:
-            X = self.data.X
+            X = self.data.X.values
         sm_prediction = self.base_estimator.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
+
+    def residuals(self, X: np.ndarray=None, y: np.ndarray=None) -> np.ndarray:
+        return SklearnModel.residuals(self, X, self.target if y is None else y)
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index 88d0ee9..dc2eb8a 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -12,16 +12,21 @@ class OLS(SklearnModel):
                  **kwargs):
         self.stat_model = stat_model
         self.stat_model_fit = None
+        self.target = None
         super().__init__(**kwargs)
 
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'OLS':
         self.stat_model_fit = self.stat_model(y, X).fit()
+        self.target = y
         SklearnModel.fit(self, X, self.stat_model_fit.resid)
         return self
 
     def predict(self, X: np.ndarray=None) -> np.ndarray:
         if X is None:
-            X = self.data.X
+            X = self.data.X.values
         sm_prediction = self.stat_model_fit.predict(X)
         bart_prediction = SklearnModel.predict(self, X)
         return sm_prediction + bart_prediction
+
+    def residuals(self, X: np.ndarray=None, y: np.ndarray=None) -> np.ndarray:
+        return SklearnModel.residuals(self, X, self.target if y is None else y)
-- 
2.43.0


From 305e38c7a7cb5bdc5d8585d9b5c322b1e47e3cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:04 +0000
Subject: [PATCH 19/28] fix: count only splits when calculating split
 proportions

---
 bartpy/diagnostics/features.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index b151506..343b771 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -20,10 +20,11 @@ def feature_split_proportions(model: SklearnModel, columns: Optional[List[int]]=
         for tree in sample.trees:
             for node in tree.nodes:
                 splitting_var = node.split.splitting_variable
-                split_variables.append(splitting_var)
+                if splitting_var is not None:
+                    split_variables.append(splitting_var)
     counter = Counter(split_variables)
     if columns is None:
-        columns = sorted(list([x for x in counter.keys() if x is not None]))
+        columns = sorted(list(counter.keys()))
 
     proportions = {}
     for column in columns:
-- 
2.43.0


From 76dfd508c918fae1bcf915b57be12e522f026041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 20/28] fix: treat the threshold percentile as a fraction of
 one and iterate over the null runs

---
 bartpy/diagnostics/features.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index 343b771..2c61c0e 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -127,7 +127,7 @@ def local_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     Mapping[int, float]
         A lookup from column to % inclusion threshold
     """
-    return {feature: np.percentile(null_distributions[feature], percentile) for feature in null_distributions}
+    return {feature: np.quantile(null_distributions[feature], percentile) for feature in null_distributions}
 
 
 def global_thresholds(null_distributions: ImportanceDistributionMap, percentile: float) -> Mapping[int, float]:
@@ -156,9 +156,9 @@ def global_thresholds(null_distributions: ImportanceDistributionMap, percentile:
     """
     q_s = []
     df = pd.DataFrame(null_distributions)
-    for row in df.iter_rows():
+    for _, row in df.iterrows():
         q_s.append(np.max(row))
-    threshold = np.percentile(q_s, percentile)
+    threshold = np.quantile(q_s, percentile)
     return {feature: threshold for feature in null_distributions}
 
 
-- 
2.43.0


From b1ca675aaeb8a3e07bbf8a7722a2ccf0f1d6cc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 21/28] fix: give one selection answer per column of the
 covariate matrix

---
 bartpy/features/featureselection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index 90d2f39..f023a3b 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -3,7 +3,7 @@ from copy import deepcopy
 import numpy as np
 from matplotlib import pyplot as plt
 from sklearn.base import BaseEstimator
-from sklearn.feature_selection.base import SelectorMixin
+from sklearn.feature_selection import SelectorMixin
 
 from bartpy.diagnostics.features import null_feature_split_proportions_distribution, \
     local_thresholds, global_thresholds, is_kept, feature_split_proportions, plot_feature_proportions_against_thresholds, plot_null_feature_importance_distributions, \
@@ -22,7 +22,7 @@ class SelectSplitProportionThreshold(BaseEstimator, SelectorMixin):
     def fit(self, X, y):
         self.model.fit(X, y)
         self.X, self.y = X, y
-        self.feature_proportions = feature_split_proportions(self.model)
+        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
         return self
 
     def _get_support_mask(self):
@@ -46,7 +46,7 @@ class SelectNullDistributionThreshold(BaseEstimator, SelectorMixin):
         elif method == "global":
             self.method = global_thresholds
         else:
-            raise NotImplementedError("Currently only local and global methods are supported, found {}".format(self.method))
+            raise NotImplementedError("Currently only local and global methods are supported, found {}".format(method))
         self.model = deepcopy(model)
         if n_trees is not None:
             self.model.n_trees = n_trees
@@ -58,7 +58,7 @@ class SelectNullDistributionThreshold(BaseEstimator, SelectorMixin):
         self.X, self.y = X, y
         self.null_distribution = null_feature_split_proportions_distribution(self.model, X, y, self.n_permutations)
         self.thresholds = self.method(self.null_distribution, self.percentile)
-        self.feature_proportions = feature_split_proportions(self.model)
+        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
         return self
 
     def _get_support_mask(self):
-- 
2.43.0


From 0e2b9c6121615f35f6677ee8ca290f1e8a2dbf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 22/28] fix: score permutation importance on the held-out rows

---
 bartpy/features/featureimportance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bartpy/features/featureimportance.py b/bartpy/features/featureimportance.py
index 88c8c51..02a5967 100644
--- a/bartpy/features/featureimportance.py
+++ b/bartpy/features/featureimportance.py
@@ -6,6 +6,7 @@ import pandas as pd
 from matplotlib import pyplot as plt
 from sklearn.model_selection import KFold
 
+from bartpy.data import ensure_numpy_array
 from bartpy.runner import run_models
 from bartpy.sklearnmodel import SklearnModel
 
@@ -30,6 +31,7 @@ def original_model_rmse(model: SklearnModel,
     List[float]
         List of the out of sample RMSEs for each fold of the covariate matrix
     """
+    X = ensure_numpy_array(X)
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     base_line_rmses = []
@@ -76,6 +78,7 @@ def null_rmse_distribution(model: SklearnModel,
         A list of predict set RMSEs - one entry for each fold of each permutation
     """
 
+    X = ensure_numpy_array(X)
     kf = KFold(n_k_fold_splits, shuffle=True)
 
     permuted_train_X_s = []
@@ -88,7 +91,7 @@ def null_rmse_distribution(model: SklearnModel,
             permuted_X = deepcopy(X)
             permuted_X[:, variable] = np.random.permutation(permuted_X[:, variable])
             permuted_train_X_s.append(permuted_X[train_index])
-            permuted_test_X_s.append(permuted_X[train_index])
+            permuted_test_X_s.append(permuted_X[test_index])
             train_y_s.append(y[train_index])
             test_y_s.append(y[test_index])
 
-- 
2.43.0


From be706912cdaf08863ccbd91a4216f08a3b7d112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 23/28] fix: plot the target of the model

---
 bartpy/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bartpy/plotting.py b/bartpy/plotting.py
index e8dc2ee..21231d6 100644
--- a/bartpy/plotting.py
+++ b/bartpy/plotting.py
@@ -4,11 +4,11 @@ from bartpy.sklearnmodel import SklearnModel
 
 
 def plot_residuals(model: SklearnModel):
-    plt.plot(model.data.unnormalized_y - model.predict())
+    plt.plot(model.data.y.unnormalized_y - model.predict())
     plt.show()
 
 
 def plot_modelled_against_actual(model: SklearnModel):
-    plt.plot(model.data.unnormalized_y)
+    plt.plot(model.data.y.unnormalized_y)
     plt.plot(model.predict())
     plt.show()
-- 
2.43.0


From a67f3f4162660a2970c5fd5ebd53a1ac19e2eb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:44 +0000
Subject: [PATCH 24/28] fix: copy the value of an sklearn tree without splits

---
 bartpy/initializers/sklearntreeinitializer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bartpy/initializers/sklearntreeinitializer.py b/bartpy/initializers/sklearntreeinitializer.py
index 80ef22a..421f3aa 100644
--- a/bartpy/initializers/sklearntreeinitializer.py
+++ b/bartpy/initializers/sklearntreeinitializer.py
@@ -63,6 +63,7 @@ def map_sklearn_split_into_bartpy_split_conditions(sklearn_tree, index: int) ->
 def map_sklearn_tree_into_bartpy(bartpy_tree: Tree, sklearn_tree):
     nodes = [None for x in sklearn_tree.children_left]
     nodes[0] = bartpy_tree.nodes[0]
+    nodes[0].set_value(sklearn_tree.value[0][0][0])
 
     def search(index: int=0):
 
-- 
2.43.0


From 70ba54637953356667811b677f8c7c11ed775ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:45 +0000
Subject: [PATCH 25/28] fix: let the residual extensions be cloned with their
 settings and keep their own copy of the target

---
 bartpy/extensions/baseestimator.py | 17 +++++++++++------
 bartpy/extensions/ols.py           |  7 ++++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/bartpy/extensions/baseestimator.py b/bartpy/extensions/baseestimator.py
index 288beb0..1b5b1fe 100644
--- a/bartpy/extensions/baseestimator.py
+++ b/bartpy/extensions/baseestimator.py
@@ -1,5 +1,7 @@
+from copy import deepcopy
+
 import numpy as np
-from sklearn.base import RegressorMixin, clone
+from sklearn.base import RegressorMixin
 from sklearn.linear_model import LinearRegression
 
 from bartpy.sklearnmodel import SklearnModel
@@ -11,16 +13,19 @@ class ResidualBART(SklearnModel):
                  base_estimator: RegressorMixin = None,
                  **kwargs):
 
-        if base_estimator is not None:
-            self.base_estimator = clone(base_estimator)
-        else:
-            self.base_estimator = LinearRegression()
+        if base_estimator is None:
+            base_estimator = LinearRegression()
+        self.base_estimator = base_estimator
         self.target = None
         super().__init__(**kwargs)
 
+    @classmethod
+    def _get_param_names(cls):
+        return sorted(super()._get_param_names() + SklearnModel._get_param_names())
+
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'ResidualBART':
         self.base_estimator.fit(X, y)
-        self.target = y
+        self.target = deepcopy(y)
         SklearnModel.fit(self, X, y - self.base_estimator.predict(X))
         return self
 
diff --git a/bartpy/extensions/ols.py b/bartpy/extensions/ols.py
index dc2eb8a..d50d645 100644
--- a/bartpy/extensions/ols.py
+++ b/bartpy/extensions/ols.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from typing import Type
 
 import numpy as np
@@ -15,9 +16,13 @@ class OLS(SklearnModel):
         self.target = None
         super().__init__(**kwargs)
 
+    @classmethod
+    def _get_param_names(cls):
+        return sorted(super()._get_param_names() + SklearnModel._get_param_names())
+
     def fit(self, X: np.ndarray, y: np.ndarray) -> 'OLS':
         self.stat_model_fit = self.stat_model(y, X).fit()
-        self.target = y
+        self.target = deepcopy(y)
         SklearnModel.fit(self, X, self.stat_model_fit.resid)
         return self
 
-- 
2.43.0


From 7dd9a430f474d2abe67a8b7a66868fb996a32b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:09 +0000
Subject: [PATCH 26/28] fix: plot_homoskedasity_diagnostics passes x and y by
 keyword, as seaborn requires

---
 bartpy/diagnostics/residuals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bartpy/diagnostics/residuals.py b/bartpy/diagnostics/residuals.py
index ede98f1..4bd7102 100644
--- a/bartpy/diagnostics/residuals.py
+++ b/bartpy/diagnostics/residuals.py
@@ -17,7 +17,7 @@ def plot_qq(model: SklearnModel, ax=None) -> None:
 def plot_homoskedasity_diagnostics(model: SklearnModel, ax=None):
     if ax is None:
         _, ax = plt.subplots(1, 1, figsize=(5, 5))
-    sns.regplot(model.predict(model.data.X.values), model.residuals(model.data.X.values), ax=ax)
+    sns.regplot(x=model.predict(model.data.X.values), y=model.residuals(model.data.X.values), ax=ax)
     ax.set_title("Fitted Values V Residuals")
     ax.set_xlabel("Fitted Value")
     ax.set_ylabel("Residual")
-- 
2.43.0


From 41b00399617b157e46f75340effa78c997afb156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:09 +0000
Subject: [PATCH 27/28] fix: plot_feature_split_proportions draws on the axes
 it is given

---
 bartpy/diagnostics/features.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bartpy/diagnostics/features.py b/bartpy/diagnostics/features.py
index 2c61c0e..6f37fb5 100644
--- a/bartpy/diagnostics/features.py
+++ b/bartpy/diagnostics/features.py
@@ -44,11 +44,11 @@ def plot_feature_split_proportions(model: SklearnModel, ax=None):
     y_pos = np.arange(len(proportions))
     name, count = list(proportions.keys()), list(proportions.values())
     props = pd.DataFrame({"name": name, "counts": count}).sort_values("name", ascending=True)
-    plt.barh(y_pos, props.counts, align='center', alpha=0.5)
-    plt.yticks(y_pos, props.name)
-    plt.xlabel('Proportion of all splits')
-    plt.ylabel('Feature')
-    plt.title('Proportion of Splits Made on Each Variable')
+    ax.barh(y_pos, props.counts, align='center', alpha=0.5)
+    ax.set_yticks(y_pos, props.name)
+    ax.set_xlabel('Proportion of all splits')
+    ax.set_ylabel('Feature')
+    ax.set_title('Proportion of Splits Made on Each Variable')
     return ax
 
 
-- 
2.43.0


From aacbb0031f060acc561a7924d65e47bb482335f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:00 +0000
Subject: [PATCH 28/28] fix: feature selectors can be cloned, and their
 settings changed

---
 bartpy/features/featureselection.py | 42 +++++++++++++++++------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/bartpy/features/featureselection.py b/bartpy/features/featureselection.py
index f023a3b..1bcee32 100644
--- a/bartpy/features/featureselection.py
+++ b/bartpy/features/featureselection.py
@@ -16,20 +16,21 @@ class SelectSplitProportionThreshold(BaseEstimator, SelectorMixin):
     def __init__(self,
                  model: SklearnModel,
                  percentile: float=0.2):
-        self.model = deepcopy(model)
+        self.model = model
         self.percentile = percentile
 
     def fit(self, X, y):
-        self.model.fit(X, y)
+        self.fitted_model = deepcopy(self.model)
+        self.fitted_model.fit(X, y)
         self.X, self.y = X, y
-        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
+        self.feature_proportions = feature_split_proportions(self.fitted_model, list(range(X.shape[1])))
         return self
 
     def _get_support_mask(self):
         return np.array([proportion > self.percentile for proportion in self.feature_proportions.values()])
 
     def plot(self):
-        plot_feature_split_proportions(self.model)
+        plot_feature_split_proportions(self.fitted_model)
         plt.show()
 
 
@@ -41,24 +42,31 @@ class SelectNullDistributionThreshold(BaseEstimator, SelectorMixin):
                  method="local",
                  n_permutations=10,
                  n_trees=None):
-        if method == "local":
-            self.method = local_thresholds
-        elif method == "global":
-            self.method = global_thresholds
-        else:
-            raise NotImplementedError("Currently only local and global methods are supported, found {}".format(method))
-        self.model = deepcopy(model)
-        if n_trees is not None:
-            self.model.n_trees = n_trees
+        self.model = model
         self.percentile = percentile
+        self.method = method
         self.n_permutations = n_permutations
+        self.n_trees = n_trees
+        self._threshold_method()
+
+    def _threshold_method(self):
+        if self.method == "local":
+            return local_thresholds
+        elif self.method == "global":
+            return global_thresholds
+        else:
+            raise NotImplementedError("Currently only local and global methods are supported, found {}".format(self.method))
 
     def fit(self, X, y):
-        self.model.fit(X, y)
+        threshold_method = self._threshold_method()
+        self.fitted_model = deepcopy(self.model)
+        if self.n_trees is not None:
+            self.fitted_model.n_trees = self.n_trees
+        self.fitted_model.fit(X, y)
         self.X, self.y = X, y
-        self.null_distribution = null_feature_split_proportions_distribution(self.model, X, y, self.n_permutations)
-        self.thresholds = self.method(self.null_distribution, self.percentile)
-        self.feature_proportions = feature_split_proportions(self.model, list(range(X.shape[1])))
+        self.null_distribution = null_feature_split_proportions_distribution(self.fitted_model, X, y, self.n_permutations)
+        self.thresholds = threshold_method(self.null_distribution, self.percentile)
+        self.feature_proportions = feature_split_proportions(self.fitted_model, list(range(X.shape[1])))
         return self
 
     def _get_support_mask(self):
-- 
2.43.0

