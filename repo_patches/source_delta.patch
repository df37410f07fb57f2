From 00b634f80c8d3561948686da640c097cacb582a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:56 +0000
Subject: [PATCH 1/9] fix: jaxext.unique truncated the input instead of the
 output

---
 src/bartz/jaxext.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bartz/jaxext.py b/src/bartz/jaxext.py
index 815f2b7..cfad316 100644
--- a/src/bartz/jaxext.py
+++ b/src/bartz/jaxext.py
@@ -183,8 +183,9 @@ def unique(x, size, fill_value):
         out = out.at[i_out].set(x)
         return (i_out, i_in + 1, x, out), None
     carry = 0, 0, x[0], jnp.full(size, fill_value, x.dtype)
-    (actual_length, _, _, out), _ = jax.lax.scan(loop, carry, x[:size])
-    return out, actual_length + 1
+    (last_index, _, _, out), _ = jax.lax.scan(loop, carry, x)
+        # values beyond the output size are dropped by the out-of-bounds set
+    return out, jnp.minimum(last_index + 1, size)
 
 def autobatch(func, max_io_nbytes, in_axes=0, out_axes=0, return_nbatches=False):
     """
-- 
2.43.0


From b6084b32f9d5e4d8081f43f03d46d5a8e0a2c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:03 +0000
Subject: [PATCH 2/9] fix: grow moves without a valid decision rule could be
 accepted

---
 src/bartz/mcmcstep.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index d98c07e..e4b328d 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -358,7 +358,7 @@ def sample_moves(bart, key):
     right = left + 1
 
     return dict(
-        allowed=grow | prune_moves['allowed'],
+        allowed=jnp.where(grow, grow_moves['allowed'], prune_moves['allowed']),
         grow=grow,
         num_growable=grow_moves['num_growable'],
         node=node,
@@ -411,6 +411,9 @@ def grow_move(var_tree, split_tree, affluence_tree, max_split, p_nonterminal, p_
 
         'num_growable' : int
             The number of growable leaves.
+        'allowed' : bool
+            Whether the new rule is valid. It is not if no variable has a
+            non-empty range of allowed splits at the chosen leaf.
         'node' : int
             The index of the leaf to grow. ``2 ** d`` if there are no growable
             leaves.
@@ -432,11 +435,13 @@ def grow_move(var_tree, split_tree, affluence_tree, max_split, p_nonterminal, p_
     var_tree = var_tree.at[leaf_to_grow].set(var.astype(var_tree.dtype))
 
     split = choose_split(var_tree, split_tree, max_split, leaf_to_grow, key2)
+    allowed = split <= max_split.at[var].get(mode='fill', fill_value=0)
 
     ratio = compute_partial_ratio(prob_choose, num_prunable, p_nonterminal, leaf_to_grow)
 
     return dict(
         num_growable=num_growable,
+        allowed=allowed,
         node=leaf_to_grow,
         var=var,
         split=split,
-- 
2.43.0


From 212f2eebe3ae1215f64a19b8ef20082242b3248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:11 +0000
Subject: [PATCH 3/9] fix: empty MCMC traces contained the whole state

---
 src/bartz/mcmcloop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bartz/mcmcloop.py b/src/bartz/mcmcloop.py
index 4510b3d..4889ec3 100644
--- a/src/bartz/mcmcloop.py
+++ b/src/bartz/mcmcloop.py
@@ -107,7 +107,8 @@ def run_mcmc(bart, n_burn, n_save, n_skip, callback, key):
         return (bart, i_total + 1, i_skip + 1, key), output
 
     def empty_trace(bart, tracelist):
-        return jax.vmap(lambda x: x, in_axes=None, out_axes=0, axis_size=0)(bart)
+        output = {key: bart[key] for key in tracelist if key in bart}
+        return jax.vmap(lambda x: x, in_axes=None, out_axes=0, axis_size=0)(output)
 
     if n_burn > 0:
         carry = bart, 0, 0, key
-- 
2.43.0


From 615e5d18740b846576062725cb51236c3cc79725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:20 +0000
Subject: [PATCH 4/9] fix: predict failed on a dataframe with its own column
 index

---
 src/bartz/BART.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/BART.py b/src/bartz/BART.py
index be77301..14df0db 100644
--- a/src/bartz/BART.py
+++ b/src/bartz/BART.py
@@ -256,7 +256,7 @@ class gbart:
     @staticmethod
     def _process_predictor_input(x):
         if hasattr(x, 'columns'):
-            fmt = dict(kind='dataframe', columns=x.columns)
+            fmt = dict(kind='dataframe', columns=list(x.columns))
             x = x.to_numpy().T
         else:
             fmt = dict(kind='array', num_covar=x.shape[0])
-- 
2.43.0


From c8b95d4a69c614dd38ac76c4bd86c0dd27a48995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:56 +0000
Subject: [PATCH 5/9] fix: the MCMC step crashed with maximum tree depth 1 or 2

---
 src/bartz/mcmcstep.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index e4b328d..7dd0593 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -610,8 +610,10 @@ def ancestor_variables(var_tree, max_split, node_index):
         The variable indices of the ancestors of the node, from the root to
         the parent. Unused spots are filled with `p`.
     """
-    max_num_ancestors = grove.tree_depth(var_tree) - 1
+    max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     ancestor_vars = jnp.zeros(max_num_ancestors, jaxext.minimal_unsigned_dtype(max_split.size))
+    if max_num_ancestors == 0:
+        return ancestor_vars
     carry = ancestor_vars.size - 1, node_index, ancestor_vars
     def loop(carry, _):
         i, index, ancestor_vars = carry
@@ -645,7 +647,7 @@ def split_range(var_tree, split_tree, max_split, node_index, ref_var):
     l, r : int
         The range of allowed splits is [l, r).
     """
-    max_num_ancestors = grove.tree_depth(var_tree) - 1
+    max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     initial_r = 1 + max_split.at[ref_var].get(mode='fill', fill_value=0).astype(jnp.int32)
     carry = 0, initial_r, node_index
     def loop(carry, _):
-- 
2.43.0


From 8f453e992274ca4db7022fccc352ce55bb381cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:13 +0000
Subject: [PATCH 6/9] fix: split_range: lower end overflowed the cutpoint type
 when the boundary is its maximum value

---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 7dd0593..3db07b3 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -649,7 +649,7 @@ def split_range(var_tree, split_tree, max_split, node_index, ref_var):
     """
     max_num_ancestors = max(0, grove.tree_depth(var_tree) - 1)
     initial_r = 1 + max_split.at[ref_var].get(mode='fill', fill_value=0).astype(jnp.int32)
-    carry = 0, initial_r, node_index
+    carry = jnp.int32(0), initial_r, node_index
     def loop(carry, _):
         l, r, index = carry
         right_child = (index & 1).astype(bool)
-- 
2.43.0


From 992553540c8f176096ac2019a885fceaad5aca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:34 +0000
Subject: [PATCH 7/9] fix: ancestor_variables: fill value p overflowed the axis
 type when there are exactly 2**8 or 2**16 predictors

---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 3db07b3..39a015c 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -618,7 +618,7 @@ def ancestor_variables(var_tree, max_split, node_index):
     def loop(carry, _):
         i, index, ancestor_vars = carry
         index >>= 1
-        var = var_tree[index]
+        var = var_tree[index].astype(ancestor_vars.dtype)
         var = jnp.where(index, var, max_split.size)
         ancestor_vars = ancestor_vars.at[i].set(var)
         return (i - 1, index, ancestor_vars), None
-- 
2.43.0


From d1c95d60138d230d0ca5ac4562d21b677872ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:22 +0000
Subject: [PATCH 8/9] fix: randint_exclude: return sup, not more, when every
 value is excluded and the list is padded or has repetitions

---
 src/bartz/mcmcstep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bartz/mcmcstep.py b/src/bartz/mcmcstep.py
index 39a015c..1aa2faa 100644
--- a/src/bartz/mcmcstep.py
+++ b/src/bartz/mcmcstep.py
@@ -687,7 +687,7 @@ def randint_exclude(key, sup, exclude):
     num_allowed = sup - jnp.count_nonzero(exclude < sup)
     u = random.randint(key, (), 0, num_allowed)
     def loop(u, i):
-        return jnp.where(i <= u, u + 1, u), None
+        return jnp.where((i <= u) & (i < sup), u + 1, u), None
     u, _ = lax.scan(loop, u, exclude)
     return u
 
-- 
2.43.0


From 3518eed1cdae9f158ded70570733c5f15b769b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:55 +0000
Subject: [PATCH 9/9] fix: quantile cutpoints of integer predictors with 256 or
 65536 midpoints

The number of midpoints is weakly typed and was cast to the type of the
indices, which could not hold it, so that all the cutpoints were dropped.
---
 src/bartz/prepcovars.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bartz/prepcovars.py b/src/bartz/prepcovars.py
index 4319b6b..07a49e2 100644
--- a/src/bartz/prepcovars.py
+++ b/src/bartz/prepcovars.py
@@ -67,7 +67,9 @@ def _quantilized_splits_from_matrix(x, out_length):
     actual_length -= 1
     if jnp.issubdtype(x.dtype, jnp.integer):
         midpoints = u[:-1] + jaxext.ensure_unsigned(u[1:] - u[:-1]) // 2
-        indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size - 1))
+        indices = jnp.arange(midpoints.size, dtype=jaxext.minimal_unsigned_dtype(midpoints.size))
+            # the type must also hold `actual_length`, which is weakly typed
+            # and thus cast to the type of `indices` by the comparison
         midpoints = jnp.where(indices < actual_length, midpoints, huge)
     else:
         midpoints = (u[1:] + u[:-1]) / 2
-- 
2.43.0

