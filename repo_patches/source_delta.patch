From d080864c566161305c7dbd8d4bae7e0b381077c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:49 +0000
Subject: [PATCH 1/8] fix: keep marginal covariances in storage order

CHOLMOD permutes rows to reduce fill-in, and `L()` is returned in the permuted
order. Covariance lookups assume storage order, so marginals were read from the
wrong variables whenever the permutation was not the identity.
---
 jaxfg/experimental/_sparse_covariance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jaxfg/experimental/_sparse_covariance.py b/jaxfg/experimental/_sparse_covariance.py
index cd895b4..12536ea 100644
--- a/jaxfg/experimental/_sparse_covariance.py
+++ b/jaxfg/experimental/_sparse_covariance.py
@@ -39,7 +39,8 @@ class SparseCovariance:
             .tocsc(copy=False)
         )
         sqrt_information_matrix: scipy.sparse.csc_matrix = (
-            sksparse.cholmod.cholesky_AAt(A=A).L()
+            # Natural ordering: the rows of `L` need to line up with our storage layout.
+            sksparse.cholmod.cholesky_AAt(A=A, ordering_method="natural").L()
         )
         return SparseCovariance(
             L=sqrt_information_matrix,
-- 
2.43.0


From 0968dd9db0ff0ffd6be1bb09bb232ae7792b1bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:49 +0000
Subject: [PATCH 2/8] fix: sum duplicate coordinates when densifying sparse
 matrices

Matrix-vector products and the scipy conversion sum entries that share a
coordinate, which happens when a factor touches the same variable twice.
`as_dense()` kept only one of them.
---
 jaxfg/sparse/_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/sparse/_sparse_matrix.py b/jaxfg/sparse/_sparse_matrix.py
index e552a04..cbfd6a2 100644
--- a/jaxfg/sparse/_sparse_matrix.py
+++ b/jaxfg/sparse/_sparse_matrix.py
@@ -53,7 +53,7 @@ class SparseCooMatrix:
         return (
             jnp.zeros(self.shape)
             .at[self.coords.rows, self.coords.cols]
-            .set(self.values)
+            .add(self.values)
         )
 
     @staticmethod
-- 
2.43.0


From 79ad5407af40ce750a39441c170186753e239d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:49 +0000
Subject: [PATCH 3/8] fix: do not truncate sparse products with integer vectors

The output took the dtype of the vector, so multiplying a float matrix by an
integer vector rounded every product toward zero.
---
 jaxfg/sparse/_sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/sparse/_sparse_matrix.py b/jaxfg/sparse/_sparse_matrix.py
index cbfd6a2..21fb316 100644
--- a/jaxfg/sparse/_sparse_matrix.py
+++ b/jaxfg/sparse/_sparse_matrix.py
@@ -42,7 +42,7 @@ class SparseCooMatrix:
             self.shape[1],
         ), "Inner product only supported for 1D vectors!"
         return (
-            jnp.zeros(self.shape[0], dtype=other.dtype)
+            jnp.zeros(self.shape[0], dtype=jnp.result_type(self.values, other))
             .at[self.coords.rows]
             .add(self.values * other[self.coords.cols])
         )
-- 
2.43.0


From ad3b70930e58c70d68a6bd7d85b62a4239fd214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:49 +0000
Subject: [PATCH 4/8] fix: keep the old residual vector when a trust region
 step is rejected

The rejected proposal's residual was stored next to the old assignments, so the
next gradient and step quality were computed from mismatched values.
---
 jaxfg/solvers/_dogleg_solver.py              | 4 +++-
 jaxfg/solvers/_levenberg_marquardt_solver.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/jaxfg/solvers/_dogleg_solver.py b/jaxfg/solvers/_dogleg_solver.py
index 232e1f0..9b4b468 100644
--- a/jaxfg/solvers/_dogleg_solver.py
+++ b/jaxfg/solvers/_dogleg_solver.py
@@ -183,6 +183,8 @@ class DoglegSolver(
             cost=jnp.where(
                 accept_flag, proposed_cost, state_prev.cost
             ),  # Use old cost if update is rejected
-            residual_vector=residual_vector,
+            residual_vector=jnp.where(
+                accept_flag, residual_vector, state_prev.residual_vector
+            ),
             done=done,
         )
diff --git a/jaxfg/solvers/_levenberg_marquardt_solver.py b/jaxfg/solvers/_levenberg_marquardt_solver.py
index 0ae2be7..393b58e 100644
--- a/jaxfg/solvers/_levenberg_marquardt_solver.py
+++ b/jaxfg/solvers/_levenberg_marquardt_solver.py
@@ -147,6 +147,8 @@ class LevenbergMarquardtSolver(
             cost=jnp.where(
                 accept_flag, proposed_cost, state_prev.cost
             ),  # Use old cost if update is rejected
-            residual_vector=residual_vector,
+            residual_vector=jnp.where(
+                accept_flag, residual_vector, state_prev.residual_vector
+            ),
             done=done,
         )
-- 
2.43.0


From 3cd059c597d71c56f72470e2a772621d0a0d537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:49 +0000
Subject: [PATCH 5/8] fix: scale Huber Jacobians and residuals by the same
 weight

The Jacobian is whitened with the already-whitened residual, whose norm is
sqrt(delta * norm). Using it as the raw norm gave the Jacobian a different weight
than the residual, so the gradient was not that of the Huber loss.
---
 jaxfg/noises/_huber.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jaxfg/noises/_huber.py b/jaxfg/noises/_huber.py
index c793cb0..bb29ba5 100644
--- a/jaxfg/noises/_huber.py
+++ b/jaxfg/noises/_huber.py
@@ -47,5 +47,7 @@ class HuberWrapper(NoiseModelBase):
         return jnp.where(
             residual_norm < self.delta,
             jacobian,
-            jacobian * jnp.sqrt(self.delta / residual_norm),
+            # The residual passed in is already whitened by this model: its norm is
+            # `sqrt(delta * norm)`, so this is the same scale as for the residual.
+            jacobian * (self.delta / residual_norm),
         )
-- 
2.43.0


From 4447651a674a8ddbc6b82f8af743a65f7f752ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:49 +0000
Subject: [PATCH 6/8] fix: use the infinity norm in the gradient tolerance
 check

The documented criterion is norm_inf, but the signed maximum was compared. Any
gradient that only increases parameters counted as converged.
---
 jaxfg/solvers/_mixins.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/jaxfg/solvers/_mixins.py b/jaxfg/solvers/_mixins.py
index af3a70e..cea6b37 100644
--- a/jaxfg/solvers/_mixins.py
+++ b/jaxfg/solvers/_mixins.py
@@ -76,13 +76,15 @@ class _TerminationCriteriaMixin:
         converged_gradient = jnp.where(
             state_prev.iterations >= self.gradient_tolerance_start_step,
             jnp.max(
-                state_prev.assignments.storage
-                - state_prev.assignments.manifold_retract(
-                    VariableAssignments(
-                        storage=negative_gradient,
-                        storage_layout=local_delta_assignments.storage_layout,
-                    ),
-                ).storage
+                jnp.abs(
+                    state_prev.assignments.storage
+                    - state_prev.assignments.manifold_retract(
+                        VariableAssignments(
+                            storage=negative_gradient,
+                            storage_layout=local_delta_assignments.storage_layout,
+                        ),
+                    ).storage
+                )
             )
             < self.gradient_tolerance,
             False,
-- 
2.43.0


From be2b956ca4e8f1855b76e1e1be74b8a84291be28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:49 +0000
Subject: [PATCH 7/8] fix: pair each variable with its own delta in
 manifold_retract

Deltas were matched to variables by position within a type. When the delta layout
ordered variables differently, variables were updated with each other's deltas.
This also made FixedIterationGaussNewtonSolver diverge when the initial
assignments were not in the graph's variable order.
---
 jaxfg/core/_variable_assignments.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jaxfg/core/_variable_assignments.py b/jaxfg/core/_variable_assignments.py
index 892c7ef..17814bc 100644
--- a/jaxfg/core/_variable_assignments.py
+++ b/jaxfg/core/_variable_assignments.py
@@ -186,6 +186,12 @@ class VariableAssignments:
         assert not self.storage_layout.local_flag
         assert local_delta_assignments.storage_layout.local_flag
 
+        # Resolve storage layout mismatches: variables of the same type need to be in
+        # the same order.
+        local_delta_assignments = local_delta_assignments.update_storage_layout(
+            StorageLayout.make(self.get_variables(), local=True)
+        )
+
         # On-manifold retractions, one variable type at a time!
         new_storage = jnp.zeros_like(self.storage)
         variable_type: Type[VariableBase]
-- 
2.43.0


From 2c003364e07ec47627f91dec106937505058d0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:49 +0000
Subject: [PATCH 8/8] fix: accept an explicit include_constants in
 compute_joint_nll

The flag was traced by jit, so passing it raised a tracer error for either value.
---
 jaxfg/core/_stacked_factor_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jaxfg/core/_stacked_factor_graph.py b/jaxfg/core/_stacked_factor_graph.py
index f7ed223..bee2a37 100644
--- a/jaxfg/core/_stacked_factor_graph.py
+++ b/jaxfg/core/_stacked_factor_graph.py
@@ -175,7 +175,7 @@ class StackedFactorGraph:
     def compute_joint_nll(
         self,
         assignments: VariableAssignments,
-        include_constants: bool = False,
+        include_constants: jdc.Static[bool] = False,
     ) -> jnp.ndarray:
         """Compute the joint negative log-likelihood density associated with a set of
         variable assignments. Assumes Gaussian noise models.
-- 
2.43.0

