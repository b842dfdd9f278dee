import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    P.append(d)
B='jax_fem/basis.py';F='jax_fem/fe.py';R='jax_fem/problem.py';S='jax_fem/solver.py';G='jax_fem/generate_mesh.py';M='jax_fem/mma.py';U='jax_fem/utils.py'
p('C01','Reference element tables follow the mesh-file node order',
 'For every supported element type, quadrature rule and quadrature order, the tabulated shape functions and reference gradients belong to the nodes in mesh-file (meshio/Abaqus) order: each column is the basis function that is 1 at the reference position of that mesh node and 0 at the others, evaluated at the points of the requested rule on the cell (default order when none is given). For every face, the tabulated values, gradients and weights are those of the same basis at the points of the requested rule mapped onto that face (weights scaled by the face measure), the normal is that face\'s outward normal, and the listed local nodes are exactly the mesh-order indices of that face\'s vertices.',
 ['configurations','inputs'],'All nine element types, every quadrature rule and order, every node, face and quadrature point.',
 'The existing tests solve problems on HEX8 meshes only, with default quadrature; the other eight element types, face tables of unused faces and non-default rules are never evaluated.',
 [B],[('get_elements','jax_fem/basis.py'),('reorder_inds','jax_fem/basis.py'),('get_shape_vals_and_grads','jax_fem/basis.py'),('get_face_shape_vals_and_grads','jax_fem/basis.py')])
p('C02','Volume geometry: physical gradients, measures and quadrature points',
 'On every mesh (any coordinates with invertible cell maps, curved and distorted cells included) the physical shape gradient times the Jacobian of the cell map equals the reference gradient, the integration measure is the Jacobian determinant times the quadrature weight, and each physical quadrature point is the image of the reference point under the cell map. The quantities stored on a problem are these, for every cell and every coupled variable, and re-initialising them with replacement node coordinates makes all of them, surface quantities included, correspond to the replacement coordinates.',
 ['inputs','configurations'],'All meshes, cells, quadrature points, element types, dimensions and numbers of coupled variables; all replacement coordinates.',
 'Tests use axis-aligned boxes and one cylinder where a transposed Jacobian or a wrong axis often cancels, one variable, and never replace coordinates.',
 [F,R],[('FiniteElement.get_shape_grads','jax_fem/fe.py'),('FiniteElement.get_physical_quad_points','jax_fem/fe.py'),('Problem.initialize_geometric_quantities','jax_fem/problem.py')])
p('C03','Surface geometry: face gradients, area measure and face quadrature points',
 'For every selected (cell, face) pair of any mesh, the face shape gradients are physical gradients of that cell at that face\'s quadrature points, the surface measure is the Nanson factor det(J)*|n J^-1| of that face\'s reference normal times that face\'s weights, and the surface quadrature points are the images of that face\'s reference points.',
 ['inputs','configurations'],'All meshes, all selections of faces (any order, repeats), all element types and dimensions.',
 'Tests integrate one load on planar, axis-aligned faces of one element type; skewed or curved faces and mixed local face numbers are not reached.',
 [F],[('FiniteElement.get_face_shape_grads','jax_fem/fe.py'),('FiniteElement.get_physical_surface_quad_points','jax_fem/fe.py')])
p('C04','Nodal fields are interpolated with the element basis',
 'For every nodal field, mesh and element, the value reported at a cell or face quadrature point is the shape-function-weighted sum of that cell\'s own nodal values, component by component, and the reported gradient [component, direction] is the corresponding sum of nodal values times physical shape gradients.',
 ['inputs'],'All nodal fields, meshes, numbers of components, cells, faces and quadrature points.',
 'Only solutions of the benchmark problems are post-processed, with fixed component counts; the face variant is not executed by any test.',
 [F],[('FiniteElement.convert_from_dof_to_quad','jax_fem/fe.py'),('FiniteElement.convert_from_dof_to_face_quad','jax_fem/fe.py'),('FiniteElement.sol_to_grad','jax_fem/fe.py')])
p('C05','Dirichlet conditions select exactly the located degrees of freedom',
 'For every list of boundary conditions, the k-th reported group contains each node whose point (and index, for two-argument location functions) satisfies the k-th location function exactly once and no other node, always with the k-th component, and with the k-th value function evaluated at that node\'s own point. Updating the conditions replaces all groups by those of the new list; location functions with another number of arguments and lists of unequal length are rejected.',
 ['inputs','histories'],'All meshes, location/value functions, components, numbers of groups (including overlapping or empty groups), and sequences of updates.',
 'Tests use one-argument location functions on box faces and constants as values; index-based selection, empty groups and spatially varying values are not exercised.',
 [F],[('FiniteElement.Dirichlet_boundary_conditions','jax_fem/fe.py'),('FiniteElement.update_Dirichlet_boundary_conditions','jax_fem/fe.py')],
 [('node_inds_list/vec_inds_list/vals_list','the selected dofs and values per group','FiniteElement')])
p('C06','Surface selections contain exactly the faces located by their vertices',
 'For every list of location functions, the k-th surface selection lists each (cell, local face) pair all of whose vertices (points, and global node indices for two-argument functions) satisfy the k-th location function, exactly once, and no other pair. The mesh-level count of selected faces for a one-argument location function equals the number of such pairs.',
 ['inputs'],'All meshes, element types, location functions and numbers of surfaces.',
 'Tests select one whole side of a box or cylinder; partially matching faces, interior faces, several surfaces, index-based functions and the counting helper are not reached.',
 [F,G],[('FiniteElement.get_boundary_conditions_inds','jax_fem/fe.py'),('Mesh.count_selected_faces','jax_fem/generate_mesh.py')])
p('C07','One global numbering for unknowns, residual entries and matrix entries',
 'The flat solution vector stores variable by variable, node by node, component by component, and flattening and unflattening are inverse. For every cell and then every selected face of every surface, the row and column indices registered for the sparse matrix are the global positions of that cell\'s local unknowns in that same order, with row index following the test function and column index the trial function, for any number of coupled variables with different meshes, element types and component counts.',
 ['inputs','configurations'],'All meshes, numbers of variables, component counts, element types and surface selections.',
 'Every test has exactly one variable, so offsets between variables and mixed component counts are never exercised.',
 [R],[('Problem.__post_init__','jax_fem/problem.py')],[('I, J, offset','triplet rows/columns; first dof of each variable','Problem')])
p('C08','Cell and face kernels are the documented weak-form integrals',
 'For every user-supplied tensor, mass and surface map and every cell or face state, the local residual of a variable\'s node and component is the quadrature sum of flux:grad(test)*measure, map*test*measure, and surface map*test*surface measure respectively, with the map evaluated at each quadrature point\'s own interpolated value or gradient, its own coordinates and its own internal variables. A cell\'s residual is the sum of exactly those contributions the problem defines (tensor, mass, universal), and each face\'s residual that of the maps registered for its own surface.',
 ['inputs','programs'],'All maps, states, internal variables, element types, component counts and combinations of defined maps.',
 'Tests use a few constitutive laws; mass maps with coordinates, several surfaces with different maps, internal variables on surfaces and combined kernels are not covered.',
 [R],[('Problem.get_laplace_kernel','jax_fem/problem.py'),('Problem.get_mass_kernel','jax_fem/problem.py'),('Problem.get_surface_kernel','jax_fem/problem.py'),('Problem.pre_jit_fns','jax_fem/problem.py')])
p('C09','The residual sums every cell and face contribution exactly once',
 'For every solution, the residual at each node and component of each variable equals the sum of the local residuals of all cells containing that node plus those of all selected faces (of every surface) whose cell contains it, each evaluated with that cell\'s own nodal values, geometry and internal variables. The result does not depend on how cells are batched, for any number of cells.',
 ['inputs','configurations'],'All numbers of cells (below, at and above the batching thresholds), meshes, variables, surfaces, internal variables and solutions.',
 'Tests run three or four mesh sizes; the remainder batch, fewer cells than batches, and several surfaces or variables are hit by accident or not at all.',
 [R],[('Problem.split_and_compute_cell','jax_fem/problem.py'),('Problem.compute_face','jax_fem/problem.py'),('Problem.compute_residual_vars_helper','jax_fem/problem.py'),('Problem.compute_residual_vars','jax_fem/problem.py')])
p('C10','The assembled tangent is the exact derivative of the residual',
 'For every problem (volume and surface terms, coupled variables, nonlinear maps) and every solution, the sparse triplets assembled during a Newton update sum to the derivative of the residual with respect to the flat solution vector, entry by entry, and the residual returned by the Newton update equals the separately computed residual.',
 ['inputs','programs'],'All kernels, solutions, meshes, numbers of variables and surfaces, and all pairs of unknowns.',
 'Tests only observe that Newton converges on mostly symmetric single-variable problems; a transposed or mis-ordered block still converges or is symmetric there.',
 [R],[('Problem.compute_newton_vars','jax_fem/problem.py'),('Problem.pre_jit_fns value_and_jacfwd','jax_fem/problem.py'),('Problem.__post_init__ I/J','jax_fem/problem.py')],[('V','triplet values','Problem')])
p('C11','Row elimination imposes the Dirichlet data and touches nothing else',
 'For every residual, solution and set of condition groups, the modified residual equals solution minus (scaled) prescribed value at each constrained unknown and the unmodified residual everywhere else; assigning writes the prescribed value (or one, or zero) at constrained unknowns and nothing elsewhere; copying keeps constrained unknowns and zeroes the rest. When groups overlap, the later group prevails, consistently in all these operations.',
 ['inputs','configurations'],'All vectors, scales, variables, groups (including overlapping and empty ones).',
 'Tests only observe converged solutions with disjoint groups on one variable; scale, overlap and coupled variables are untested.',
 [S],[('apply_bc_vec','jax_fem/solver.py'),('assign_bc','jax_fem/solver.py'),('assign_ones_bc','jax_fem/solver.py'),('assign_zeros_bc','jax_fem/solver.py'),('copy_bc','jax_fem/solver.py')])
p('C12','The tangent matrix matches the current problem state after any history',
 'After any sequence of Newton updates and boundary-condition updates (including changed locations), the matrix handed to the linear solver equals the current assembled tangent with each currently constrained row replaced by the identity row and every other row untouched, and with linear multipoint constraints P it equals P^T A P of that matrix. The matrix assembled for dynamic relaxation equals the same row-eliminated tangent, for any number of variables.',
 ['histories','configurations'],'All update sequences, condition sets, meshes, numbers of variables and constraint matrices P.',
 'Tests never change the set of constrained nodes of an existing problem, use multipoint constraints or several variables.',
 [S],[('_PetscTangentCache','jax_fem/solver.py'),('get_A','jax_fem/solver.py'),('assembleCSR','jax_fem/solver.py')],[('_petsc_tangent_cache','cached matrix and its boundary rows','Problem')])
p('C13','Newton returns only solutions that meet its stopping criteria',
 'Whenever the Newton solver returns, the residual with boundary conditions (reduced by the multipoint constraints if any) evaluated at the returned solution is finite and has norm at most the absolute tolerance or at most the relative tolerance times its norm at the initial guess, with the documented default tolerances; otherwise it raises or keeps iterating. The returned list is the unflattened (expanded) iterate itself.',
 ['inputs','histories'],'All problems, initial guesses, tolerances, linear solvers and iteration histories.',
 'Tests see a handful of convergent runs; stale residuals, wrong reference norms, non-finite states and multipoint constraints are not observable there.',
 [S],[('solver','jax_fem/solver.py')])
p('C14','Newton increments and line search never accept a worse step',
 'A Newton update solves the system (matrix, minus residual) it was given starting from a guess that satisfies the constraints, and adds the increment, scaled by one when line search is off. With line search on, the increment is scaled by 1, 1/2, 1/4 or 1/8, halving only while the constrained residual norm does not increase, so the accepted point\'s residual norm is never larger than the full step\'s; this also holds under multipoint constraints.',
 ['inputs'],'All problems, iterates, increments and residual landscapes, with and without multipoint constraints.',
 'No stable test turns line search on, and none has multipoint constraints.',
 [S],[('newton_step','jax_fem/solver.py'),('line_search','jax_fem/solver.py')])
p('C15','Linear solves answer the system they were given or fail loudly',
 'For every matrix, right-hand side and option set, the selected backend (the one named in the options, with the documented default when none is named) is run on exactly that matrix and right-hand side with the user\'s or the documented default settings, and its solution is returned unchanged. The iterative backends return only if the true residual norm of the given system is below 0.1 and otherwise raise; the options passed by the caller are never modified.',
 ['inputs','configurations'],'All systems, all backends and option combinations, including disabled preconditioning.',
 'Tests use the default backend (and PETSc) on well-conditioned systems; failures, option defaults and disabled preconditioning are not reached.',
 [S],[('linear_solver','jax_fem/solver.py'),('jax_solve','jax_fem/solver.py'),('scipy_spsolve','jax_fem/solver.py'),('petsc_solve','jax_fem/solver.py')])
p('C16','Solver options have one meaning',
 'For every option dictionary, a flat dictionary without method key behaves exactly as the same Newton and linear options nested under the Newton method; naming exactly one method selects it with its block; naming several methods, or a block that is not a dictionary, is rejected; and the dictionary passed by the caller is left unchanged. Methods are dispatched to the algorithm they name and each option reaches it, with the documented default when omitted.',
 ['configurations'],'All subsets of the recognised keys (methods, linear backends, Newton options), with arbitrary values and unrecognised keys.',
 'Tests use two or three option dictionaries.',
 [S],[('_resolve_solver_options','jax_fem/solver.py'),('solver dispatch','jax_fem/solver.py'),('_solve_arc_length','jax_fem/solver.py'),('_solve_dynamic_relax','jax_fem/solver.py')])
p('C17','Arc-length steps lie on the arc and follow the path',
 'Every completed arc-length step (displacement or force control) returns increments that satisfy the arc-length constraint |du|^2 + psi^2 dlambda^2 |f|^2 = dl^2 exactly (in real arithmetic), at a point whose last corrected equilibrium residual met the tolerance, choosing at each correction the root that advances along the previous direction (the larger load increment when both are orthogonal). The outer loop starts from zero load, records every step, stops as soon as the target load is reached or the step limit is exhausted, and reports "polished" (after a full-load Newton solve) if and only if the target was reached.',
 ['inputs','histories'],'All problems, tangents, previous increments, psi, step lengths and continuation histories.',
 'No test runs arc-length at all.',
 [S],[('arc_length_solver_disp_driven','jax_fem/solver.py'),('arc_length_solver_force_driven','jax_fem/solver.py'),('_solve_arc_length_disp','jax_fem/solver.py'),('_solve_arc_length_force','jax_fem/solver.py'),('_finish_arc_length','jax_fem/solver.py')])
p('C18','Dynamic relaxation returns equilibria that respect the constraints',
 'When dynamic relaxation returns, the largest unbalanced force on the unconstrained unknowns at the returned solution is at most the tolerance (unless it reports failure), and constrained unknowns were never moved by the relaxation from the values they had at its start, which are the prescribed ones when an initial guess is given. The damping coefficient always lies within its fixed bounds, for any number of coupled variables.',
 ['inputs','histories'],'All problems, initial guesses, tolerances, refresh intervals and iteration histories.',
 'No test runs dynamic relaxation.',
 [S],[('dynamic_relax_solve','jax_fem/solver.py'),('calC','jax_fem/solver.py'),('assembleCSR','jax_fem/solver.py')])
p('C19','Gradients through the solver are the implicit-function gradients',
 'For every parameter value, cotangent and problem (with Dirichlet conditions, coupled variables and multipoint constraints), differentiating the wrapped forward solve yields minus the adjoint solution of the transposed tangent at the returned solution applied to the parameter derivative of the constrained residual, all evaluated at the parameters of that forward solve even if the problem\'s parameters were changed in between. Afterwards the problem is left in a usable state with those parameters set.',
 ['inputs','histories'],'All parameters, cotangents, problems, and interleavings of forward and backward evaluations.',
 'No stable test differentiates through the solver.',
 [S],[('implicit_vjp','jax_fem/solver.py'),('ad_wrapper','jax_fem/solver.py')])
p('C20','Structured meshes tile the domain with consistently oriented cells',
 'For all numbers of divisions and side lengths, the generated rectangle (box) mesh has exactly the lattice nodes of the domain, each once, and one cell per lattice box whose four (eight) node indices are in range and refer, in the standard counter-clockwise (bottom then top) order, to the corners of that box. The signed volume reported for a TET4 cell is the triple product of its edge vectors from its first node.',
 ['inputs'],'All Nx, Ny, Nz >= 1 and all domain sizes; all tetrahedra.',
 'Tests generate one 1x1x1 box; unequal divisions, where axes can be confused, are not covered.',
 [G],[('rectangle_mesh','jax_fem/generate_mesh.py'),('box_mesh','jax_fem/generate_mesh.py'),('check_mesh_TET4','jax_fem/generate_mesh.py')])
p('C21','Every MMA subproblem is a first-order-exact convex approximation',
 'At every iteration and for all objective and constraint values and gradients, the moving asymptotes strictly enclose the current design and stay within the prescribed distances of it, the subproblem\'s bounds lie inside the asymptotes, the move limit and the design bounds, and the separable approximations have nonnegative coefficients, reproduce every constraint value at the current design, and reproduce the gradients of objective and constraints there.',
 ['inputs','histories'],'All designs within bounds, gradients, previous designs and asymptotes, numbers of variables and constraints, and iteration counts.',
 'No test runs the optimiser.',
 [M],[('MMA.mmasub','jax_fem/mma.py')],[('lowAsymp/upAsymp','moving asymptotes','MMA'),('xold1/xold2','previous designs','MMA')])
p('C22','The MMA subproblem solver stays interior and follows Newton directions',
 'For every subproblem with nonempty bounds, the interior-point solver keeps the design strictly between its bounds and all multipliers and slacks strictly positive at every step, and in both elimination variants (fewer or more constraints than variables) its search direction satisfies the linearised perturbed optimality conditions. It terminates each stage only when the optimality residual is at most 0.9 of the stage\'s parameter or the iteration cap is hit.',
 ['inputs','histories'],'All subproblem data and iteration histories.',
 'No test runs the optimiser; the variant with at least as many constraints as variables is not used by any example.',
 [M],[('subsolv','jax_fem/mma.py')])
p('C23','Design optimisation keeps designs feasible and iterates in order',
 'Starting from a design within [0,1], every design passed to the objective and constraint callbacks and the returned design lie within [0,1], consecutive designs differ by at most the move limit in every variable, the callbacks are evaluated exactly once per iteration with iteration numbers 1..maxIters, and the optimiser always receives the two previous designs in order. The filter weights are nonnegative, vanish beyond the filter radius, decrease linearly with centroid distance, and their reported sums are the row sums, for any number of design cells.',
 ['inputs','histories'],'All initial designs, callbacks, iteration counts and meshes (any number of cells).',
 'No test runs the optimiser.',
 [M],[('optimize','jax_fem/mma.py'),('compute_filter_kd_tree','jax_fem/mma.py')])
p('C24','Result files carry the mesh and fields they were given',
 'Saving a solution writes the element\'s own points and connectivity under the matching mesh-file cell type, the nodal solution, and every additional cell and point field under its own name, unchanged up to single precision, to exactly the requested path (directories created as needed); fields of the wrong length are rejected. Converting a VTU file changes only the version header, and the timing decorators return the wrapped function\'s result for the arguments given.',
 ['inputs'],'All element types, meshes, fields, paths and files; all wrapped functions and arguments.',
 'Tests write HEX8 solutions without extra fields into nested directories.',
 [U,G],[('save_sol','jax_fem/utils.py'),('modify_vtu_file','jax_fem/utils.py'),('get_meshio_cell_type','jax_fem/generate_mesh.py'),('timeit','jax_fem/utils.py'),('walltime','jax_fem/utils.py')])
p('C25','Finite-strain plasticity returns to the yield surface',
 'For every deformation increment and admissible history, the finite-strain plasticity model leaves hardening and the pushed-forward elastic state untouched when the trial state is inside the yield surface, and otherwise returns a state whose Kirchhoff deviator lies exactly on the hardened yield surface, along the trial direction, with nondecreasing hardening and unchanged elastic trace. The first Piola-Kirchhoff and Cauchy stresses it reports are those of the returned Kirchhoff stress.',
 ['inputs'],'All deformation gradients with positive determinant, all previous states.',
 'Two tests evaluate one elastic and one plastic increment.',
 ['applications/finite_plasticity/model.py'],[('Plasticity.get_maps','applications/finite_plasticity/model.py')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
