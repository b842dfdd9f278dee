From 63155c64e10219cf0c8ea8d836363fc6b12121fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 01/11] fix: jax_solver option precond=False raised TypeError

The conditional bound inside the lambda, so the preconditioner became a function returning None.
---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index c071986..176d44f 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -66,7 +66,7 @@ def jax_solve(A, b, x0, precond):
     A_sp_scipy = scipy.sparse.csr_array((data, indices, indptr), shape=A.getSize())
     A = BCOO.from_scipy_sparse(A_sp_scipy).sort_indices()
     jacobi = np.array(A_sp_scipy.diagonal())
-    pc = lambda x: x * (1. / jacobi) if precond else None
+    pc = (lambda x: x * (1. / jacobi)) if precond else None
     
     if issubclass(PETSc.ScalarType, np.complexfloating):
         logger.debug("JAX Solver - Using PETSc with complex number support")
-- 
2.43.0


From 24089232a3df213c2f228e32ffa46163f9b44478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 02/11] fix: Mesh.count_selected_faces raised on every mesh

points and cells are JAX arrays, on which numpy.take is not supported.
---
 jax_fem/generate_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_fem/generate_mesh.py b/jax_fem/generate_mesh.py
index bd564c8..1bba120 100644
--- a/jax_fem/generate_mesh.py
+++ b/jax_fem/generate_mesh.py
@@ -40,8 +40,8 @@ class Mesh():
         face_count : int
         """
         _, _, _, _, face_inds = get_face_shape_vals_and_grads(self.ele_type)
-        cell_points = onp.take(self.points, self.cells, axis=0)
-        cell_face_points = onp.take(cell_points, face_inds, axis=1)
+        cell_points = np.take(self.points, self.cells, axis=0)
+        cell_face_points = np.take(cell_points, face_inds, axis=1)
 
         vmap_location_fn = jax.vmap(location_fn)
 
-- 
2.43.0


From 69bc9bf427ed8813bbca207d9d7332517bd0e424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 03/11] fix: walltime decorator raised AttributeError after
 running the function

jax.lib.xla_bridge no longer exists.
---
 jax_fem/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index c9ce5c1..222e202 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -186,7 +186,7 @@ def walltime(txt_dir=None, filename=None):
             return_values = func(*list_args, **keyword_args)
             end_time = time.time()
             time_elapsed = end_time - start_time
-            platform = jax.lib.xla_bridge.get_backend().platform
+            platform = jax.default_backend()
             logger.info(
                 f"Time elapsed {time_elapsed} of function {func.__name__} "
                 f"on platform {platform}"
-- 
2.43.0


From 9d7c301bde5f0ce9d6dff2b5f0305e0fdb83243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 04/11] fix: save_sol failed for a path without directory

---
 jax_fem/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jax_fem/utils.py b/jax_fem/utils.py
index 222e202..90bd0a9 100644
--- a/jax_fem/utils.py
+++ b/jax_fem/utils.py
@@ -40,7 +40,8 @@ def save_sol(fe, sol, sol_file, cell_infos=None, point_infos=None):
     """
     cell_type = get_meshio_cell_type(fe.ele_type)
     sol_dir = os.path.dirname(sol_file)
-    os.makedirs(sol_dir, exist_ok=True)
+    if sol_dir:
+        os.makedirs(sol_dir, exist_ok=True)
     out_mesh = meshio.Mesh(points=fe.points, cells={cell_type: fe.cells})
     out_mesh.point_data['sol'] = onp.array(sol, dtype=onp.float32)
     if cell_infos is not None:
-- 
2.43.0


From 9c964a68934a2bbc3d44684fc6c3802238a1533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 05/11] fix: assembleCSR used the first variable's size for
 coupled problems

Dynamic relaxation failed for more than one variable.
---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 176d44f..9544c7e 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -876,7 +876,7 @@ def assembleCSR(problem, dofs):
     sol_list = problem.unflatten_fn_sol_list(dofs)
     problem.newton_update(sol_list)
     A_sp_scipy = scipy.sparse.csr_array((problem.V, (problem.I, problem.J)),
-        shape=(problem.fes[0].num_total_dofs, problem.fes[0].num_total_dofs))
+        shape=(problem.num_total_dofs_all_vars, problem.num_total_dofs_all_vars))
 
     for ind, fe in enumerate(problem.fes):
         for i in range(len(fe.node_inds_list)):
-- 
2.43.0


From df44105858baaf6f3f015097816b2ffea54b1e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 06/11] fix: MMA filter raised because mesh arrays are JAX
 arrays

numpy.take is not supported on JAX arrays, so topology optimisation could not start.
---
 jax_fem/mma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/mma.py b/jax_fem/mma.py
index 29e15c6..196c06f 100644
--- a/jax_fem/mma.py
+++ b/jax_fem/mma.py
@@ -28,7 +28,7 @@ def compute_filter_kd_tree(fe):
     """This function is created by Tianju. Not from the original code.
     We use k-d tree algorithm to compute the filter.
     """
-    cell_centroids = np.mean(np.take(fe.points, fe.cells, axis=0), axis=1)
+    cell_centroids = np.mean(np.take(np.asarray(fe.points), np.asarray(fe.cells), axis=0), axis=1)
     flex_num_cells = len(fe.flex_inds)
     flex_cell_centroids = np.take(cell_centroids, fe.flex_inds, axis=0)
 
-- 
2.43.0


From b14375694dc576e10a5deb5e8113c030fb28eee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 07/11] fix: MMA filter raised for fewer than 20 design cells

---
 jax_fem/mma.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jax_fem/mma.py b/jax_fem/mma.py
index 196c06f..9ee61fc 100644
--- a/jax_fem/mma.py
+++ b/jax_fem/mma.py
@@ -43,8 +43,8 @@ def compute_filter_kd_tree(fe):
     J = []
     V = []
     for i in range(flex_num_cells):
-        num_nbs = 20
-        dd, ii = kd_tree.query(flex_cell_centroids[i], num_nbs)
+        num_nbs = min(20, flex_num_cells)
+        dd, ii = kd_tree.query(flex_cell_centroids[i], np.arange(1, num_nbs + 1))
         neighbors = np.take(flex_cell_centroids, ii, axis=0)
         vals = np.where(rmin - dd > 0., rmin - dd, 0.)
         I += [i]*num_nbs
-- 
2.43.0


From 346f9411f778993f9fd2285de62cfe7d59147f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 08/11] fix: linear_solver modified the options passed by the
 caller

---
 jax_fem/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 9544c7e..93aaae9 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -261,7 +261,7 @@ def AMGX_solve(A, b, x0, cfg_path):
 def linear_solver(A, b, x0, linear_options):
     # If user does not specify any solver, set jax_solver as the default one.
     if len(linear_options.keys() & {'jax_solver', 'amgx_solver', 'spsolve_solver', 'petsc_solver', 'custom_solver'}) == 0:
-        linear_options['jax_solver'] = {}
+        linear_options = {**linear_options, 'jax_solver': {}} # Do not modify the caller's options
 
     if 'jax_solver' in linear_options:
         precond = linear_options['jax_solver']['precond'] if 'precond' in linear_options['jax_solver'] else True
-- 
2.43.0


From c37e953c552401a4e47e58ad08528d21b6990c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 09/11] fix: line search failed with linear multipoint
 constraints

---
 jax_fem/solver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 93aaae9..65ca03c 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -430,7 +430,10 @@ def line_search(problem, dofs, inc):
     res_fn = apply_bc(res_fn, problem)
 
     def res_norm_fn(alpha):
-        res_vec = res_fn(dofs + alpha*inc)
+        if hasattr(problem, 'P_mat'):
+            res_vec = problem.P_mat.T @ res_fn(problem.P_mat @ (dofs + alpha*inc))
+        else:
+            res_vec = res_fn(dofs + alpha*inc)
         return np.linalg.norm(res_vec)
 
     # grad_res_norm_fn = jax.grad(res_norm_fn)
-- 
2.43.0


From ce8a6decde3c4100c32f075341c7b97786c663ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 10/11] fix: problem was unusable after differentiating through
 the solver

---
 jax_fem/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jax_fem/solver.py b/jax_fem/solver.py
index 65ca03c..4913689 100644
--- a/jax_fem/solver.py
+++ b/jax_fem/solver.py
@@ -1418,6 +1418,9 @@ def implicit_vjp(problem, sol_list, params, v_list, adjoint_solver_options):
     vjp_result = vjp_linear_fn(problem.unflatten_fn_sol_list(adjoint_vec))
     vjp_result = jax.tree_util.tree_map(lambda x: -x, vjp_result)
 
+    # Tracing constraint_fn has left tracers in the problem, so set the actual parameters again
+    problem.set_params(params)
+
     return vjp_result
 
 
-- 
2.43.0


From 0cfd9083b8bf940a2bfc788f10aac09862e74398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 11/11] fix: QUAD8 and HEX20 shape functions were not the nodal
 basis (Basix serendipity edge DOFs are integral moments)

---
 jax_fem/basis.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/jax_fem/basis.py b/jax_fem/basis.py
index a7b7b04..1350c99 100644
--- a/jax_fem/basis.py
+++ b/jax_fem/basis.py
@@ -138,6 +138,21 @@ def _normalize_quadrature_rule(rule):
     )
 
 
+def tabulate_nodal_basis(element_family, basix_ele, degree, points):
+    """Values and first derivatives at points of the basis that is 1 at its own node and 0 at the other nodes.
+
+    For serendipity elements, the degrees of freedom that Basix associates with edges are integral moments
+    and not nodal values, so the basis is changed to the one of the (vertex and edge) nodes.
+    """
+    element = basix.create_element(element_family, basix_ele, degree)
+    vals_and_grads = element.tabulate(1, points)
+    if element_family == basix.ElementFamily.serendipity:
+        nodes = basix.create_element(basix.ElementFamily.P, basix_ele, degree).points[:vals_and_grads.shape[2]]
+        vals_at_nodes = element.tabulate(0, nodes)[0, :, :, 0]
+        vals_and_grads = onp.einsum('dqik,ij->dqjk', vals_and_grads, onp.linalg.inv(vals_at_nodes))
+    return vals_and_grads
+
+
 def get_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_order=None):
     """Use `basix <https://github.com/FEniCS/basix>`_ to get shape function values and gradients for elements.
 
@@ -167,8 +182,7 @@ def get_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_order=No
 
     quad_points, weights = basix.make_quadrature(basix_ele, quadrature_order, rule=quadrature_rule)
 
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, quad_points)[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal_basis(element_family, basix_ele, degree, quad_points)[:, :, re_order, :]
     shape_values = vals_and_grads[0, :, :, 0]
     shape_grads_ref = onp.transpose(vals_and_grads[1:, :, :, 0], axes=(1, 2, 0))
     logger.info(f"ele_type = {ele_type}, quad_points.shape = (num_quads, dim) = {quad_points.shape}")
@@ -241,8 +255,7 @@ def get_face_shape_vals_and_grads(ele_type, quadrature_rule=None, quadrature_ord
     face_inds = onp.array(face_inds)
     face_inds = reorder_inds(face_inds, re_order)
     num_faces, num_face_quads, dim = face_quad_points.shape
-    element = basix.create_element(element_family, basix_ele, degree)
-    vals_and_grads = element.tabulate(1, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
+    vals_and_grads = tabulate_nodal_basis(element_family, basix_ele, degree, face_quad_points.reshape(-1, dim))[:, :, re_order, :]
     face_shape_vals = vals_and_grads[0, :, :, 0].reshape(num_faces, num_face_quads, -1)
     face_shape_grads_ref = vals_and_grads[1:, :, :, 0].reshape(dim, num_faces, num_face_quads, -1)
     face_shape_grads_ref = onp.transpose(face_shape_grads_ref, axes=(1, 2, 3, 0))
-- 
2.43.0

