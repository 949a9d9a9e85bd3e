"""Writes /verif/properties.jsonl (the one place where the properties' text is kept)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n,where=w) for n,w in mech],
            state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
            observe_at=list(observe))))

p('M01','Split/coarsen histories keep trees and sub-forests consistent',
  'After any history of splitting, marking, flag-driven refining and coarsening of a forest, every node is reached exactly once by both traversal orders, its address leads back to it, and parent/child links, depth (also of a flagged subtree) and node type agree; the same holds when trees that were split beforehand enter a forest when trees leave it, and when children are removed one at a time; marks are per name, and every traversal or leaf query restricted to a name (of a subtree or of the forest) gives exactly the nodes that carry it. Refining a flagged sub-forest yields a rooted sub-forest in which exactly the requested leaves were replaced by all their children; coarsening removes exactly the requested descendants; every root-to-bottom path then meets exactly one leaf of the sub-forest.',
  ['histories','inputs'],
  'all forests of up to two quad/binary trees of depth <= 2, all subsets of nodes carrying the sub-forest, refinement and coarsening flags, all refine/coarsen option combinations',
  'The unit tests run each operation on one or two hand-built trees with one flag; the flag subsets, option combinations and histories are exponentially many.',
  ['src/mesh.py'],[('Forest.refine','src/mesh.py'),('Forest.coarsen / Tree.coarsen','src/mesh.py'),('Tree.split','src/mesh.py'),('traverse/get_leaves','src/mesh.py')],
  [('flags','sets of labels attached to nodes that define sub-forests','Tree._flags')],['Forest.get_leaves','Forest.traverse','Forest.find_node'])
p('M02','Splitting a cell tiles it exactly, with consistent half-edges and shared nodes',
  'Splitting an interval, half-edge or quadrilateral produces children that tile the parent exactly: their lengths/areas sum to the parent\'s, corners are the parent\'s corners, edge midpoints and centre, in counter-clockwise order. Half-edges of the children form closed loops with consistent next/previous/cell links, twins connect coincident edges head-to-base, and neighbouring cells reuse the same vertex objects instead of duplicating them. The reported relative position and width of a descendant within a cell are the true ones.',
  ['inputs','histories'],
  'every non-degenerate interval, half-edge, rectangle, parallelogram or convex quadrilateral with real vertex coordinates; every order in which the cells of a small mesh are split',
  'Tests split the unit square and a few fixed cells in one order; the claim is about all coordinates and all orders of refinement.',
  ['src/mesh.py'],[('QuadCell.split','src/mesh.py'),('HalfEdge.split','src/mesh.py'),('Interval.split','src/mesh.py')],(),['Cell.get_vertices','Cell.get_half_edges','Cell.area'])
p('M03','Reference maps invert each other and report the true Jacobian and Hessian',
  'Mapping a point to a cell\'s physical coordinates and back (and the reverse) is the identity, corners go to corners, and the returned Jacobians and Hessians are exactly the first and second derivatives of the map that was applied. Mapping many points at once gives the same values as mapping them one at a time. The unit normal of an edge has length one, is orthogonal to it and points out of its cell.',
  ['inputs'],
  'every interval, rectangle with positive side lengths, and every reference or physical point, all reals; forward map of every axis-parallel parallelogram and general quadrilateral; inverse map of parallelograms, trapezoids and affine images of general quadrilaterals',
  'Tests check a handful of cells and points.',
  ['src/mesh.py'],[('Interval/HalfEdge/QuadCell.reference_map','src/mesh.py')],(),['reference_map'])
p('M04','Point location: each point is found in exactly the cells that contain it',
  'A cell (or region defined by edges) reports that it contains a point exactly when the point lies in its closed area, and binning a set of points assigns every point of the domain to exactly one leaf of the requested sub-mesh, a leaf which contains it, and rejects points outside the domain. A segment is reported to intersect an edge or cell exactly when they meet. Shared edges and corners are never lost, whatever the refinement pattern.',
  ['inputs','histories'],
  'every real point; every rectangle/convex quadrilateral/interval with real coordinates (for containment); every refinement pattern and sub-mesh of a 1x1..2x1 mesh to depth 2 (for binning)',
  'Tests locate a few chosen points in a few meshes; points on shared edges and corners after irregular refinement are exactly what sampling misses.',
  ['src/mesh.py'],[('Cell.contains_points','src/mesh.py'),('bin_points','src/mesh.py'),('locate_point','src/mesh.py')],(),['Cell.contains_points','Mesh.bin_points','Cell.locate_point'])
p('M05','Neighbour relations are symmetric and geometrically right, including periodic',
  'For an interval of a (sub-)mesh, the neighbour on each side is the leaf that shares that end point (across a periodic end too), absent exactly at a true end; in level-wise mode it is the interval of the same level there, absent exactly when there is none, and the relation is symmetric. For a quadrilateral cell the neighbour across a side is the cell of the same size that shares this side or its periodic image, each reporting the other, and the neighbours about a vertex are exactly the cells of the same size around it (linked by shared sides), each once; a flag restricts both to the marked ones. This holds after any refinements and coarsenings: cells that were removed are never neighbours.',
  ['histories','inputs'],
  'all refinement patterns to depth 2 of small interval and quadrilateral meshes, periodic or not, on boxes with symbolic extents',
  'Tests check single neighbours on fixed refinements.',
  ['src/mesh.py'],[('Interval.get_neighbor','src/mesh.py'),('Cell.get_neighbors','src/mesh.py'),('HalfEdge.twin / pair_periodic','src/mesh.py')],(),['get_neighbor','get_neighbors'])
p('M06','Balancing yields a 2:1 mesh, only ever refines, and is recognised as balanced',
  'After balancing a quadrilateral mesh (or flagged sub-mesh), every two leaves that share part of a side differ by at most one level, every leaf is either an old leaf or inside one, and the balance test answers true; the balance test answers false whenever two side-sharing leaves differ by more than one level. All this also after cells have been removed again (coarsening).',
  ['histories'],
  'every refinement pattern to depth 3 (bounded number of splits) of 1x1 and 2x1 quadrilateral meshes, with and without a sub-mesh flag',
  'Tests balance two fixed meshes.',
  ['src/mesh.py'],[('QuadMesh.balance','src/mesh.py'),('QuadMesh.is_balanced','src/mesh.py'),('QuadMesh.remove_supports','src/mesh.py')],(),['QuadMesh.cells.get_leaves'])
p('M07','Region marking and boundary extraction select exactly the right entities',
  'Marking a region flags exactly those vertices, edges or cells (of the requested kind, sub-mesh and boundary restriction) whose vertices satisfy the predicate under the strict or non-strict rule, and reading the region back returns them. The boundary segments of a (sub-)mesh cover the boundary of the domain exactly once. A recorded mesh keeps its cells, entities and boundary whatever is refined afterwards.',
  ['inputs','histories'],
  'all predicates (an arbitrary truth value per vertex), entity kinds, strictness and boundary options, on all refinement patterns to depth 1-2 of small meshes',
  'Tests mark a side of a fixed square.',
  ['src/mesh.py'],[('mark_region','src/mesh.py'),('get_region','src/mesh.py'),('get_boundary_segments','src/mesh.py')],(),['Mesh.get_region','Mesh.get_boundary_segments'])
p('M08','Grid construction gives a valid half-edge structure for every box and resolution',
  'For every box and resolution, the generated interval or quadrilateral grid has the right number of points, edges and faces, uniform spacing that fills the box, counter-clockwise faces, next/previous links that close each face, twins exactly between the two faces sharing an edge, and a periodic grid identifies exactly the opposite sides. Building from an explicit connectivity list, or reading a gmsh file, gives the same structure as the equivalent regular grid.',
  ['inputs','configurations'],
  'all box extents (real), resolutions up to 3x3, all periodic settings',
  'Tests build three fixed grids.',
  ['src/mesh.py'],[('DCEL','src/mesh.py'),('Mesh1D/Mesh2D/QuadMesh constructors','src/mesh.py')],(),['DCEL arrays','Mesh cells and half-edges'])
p('F01','Shape functions are nodal, sum to one, reproduce polynomials, and differentiate truly',
  'For every supported element, shape function i equals one at node i and zero at the other nodes, their sum is one everywhere, they reproduce every polynomial of the element\'s space, and the reported first and second derivatives are the derivatives of the reported values. This also holds on mapped cells, where derivatives are with respect to physical coordinates, and for the basis functions of a mesh or sub-mesh, asked for at reference or physical points of a cell, whether the derivative is named by a string or a tuple.',
  ['inputs','configurations'],
  'all elements DQ0..Q3 in 1D and 2D, all real evaluation points, all derivatives of order <= 2, all intervals and rectangles with real extents',
  'Tests evaluate at a few points on one cell.',
  ['src/fem.py'],[('QuadFE.phi/dphi/d2phi','src/fem.py'),('QuadFE.shape','src/fem.py')],(),['QuadFE.shape'])
p('F02','Degrees of freedom are shared exactly when they sit at the same place',
  'On every mesh, two cells of the same sub-mesh share a global degree of freedom of a continuous element exactly when their nodes coincide (including across periodic sides), a discontinuous element shares none between different cells, numbering is contiguous from zero, and each number has one location, the image of its reference node.',
  ['histories','configurations'],
  'all refinement patterns to depth 2 of small meshes (bounded splits), all elements, periodic or not, symbolic boxes',
  'Tests check fixed meshes and dof counts.',
  ['src/fem.py'],[('DofHandler.distribute_dofs','src/fem.py'),('share_dofs_with_neighbors/children','src/fem.py'),('get_dof_vertices','src/fem.py')],(),['DofHandler.get_global_dofs','get_dof_vertices','n_dofs'])
p('F03','Hanging-node constraints make finite element functions continuous',
  'On every 2:1 balanced mesh, prescribing arbitrary values at the unconstrained degrees of freedom and the hanging ones by their constraint gives a function that has equal one-sided values along every interior side. The constraint weights reproduce every polynomial of the element\'s degree. This holds for meshes reached by refinement and by coarsening.',
  ['histories','inputs'],
  'all 2:1 balanced refinement patterns to depth 2 of 1x1/2x1/2x2 meshes, elements Q1-Q3, all nodal values, all points of the shared sides',
  'Tests list constraints on one mesh.',
  ['src/fem.py'],[('DofHandler.set_hanging_nodes','src/fem.py'),('QuadFE.constraint_coefficients','src/fem.py')],(),['DofHandler.constraints','Nodal.eval'])
p('F04','Region dof queries return exactly the dofs located in the region',
  'Asking for the degrees of freedom of a flagged sub-mesh or marked region (vertices, edges, cells, interior or boundary) returns exactly those located on its entities, each once, with locations in matching order (whether named one by one or not at all); the positions of an entity\'s dofs within a cell lead to the same dofs; restricting and re-extending numbering between a basis and the global list is a bijection.',
  ['histories','configurations'],
  'all markings and sub-meshes of small meshes to depth 1-2, all elements',
  'Tests query one side of fixed meshes.',
  ['src/fem.py'],[('DofHandler.get_region_dofs','src/fem.py'),('Basis','src/fem.py')],(),['DofHandler.get_region_dofs','Basis.dofs'])
p('N01','Finite element functions reproduce polynomials anywhere, with true derivatives',
  'A nodal function built from a polynomial of the element\'s space evaluates to that polynomial, and its derivatives to the polynomial\'s derivatives, at every point of the domain, however the mesh is refined and whichever cell the point falls in. Evaluation is linear in the nodal values and treats every sample column independently and each evaluation point independently.',
  ['inputs','histories'],
  'all polynomials of the space, all real points of the domain, all refinement patterns to depth 2 of small meshes, elements DQ0-Q3, derivative order <= 2, 1-2 samples',
  'Tests interpolate a few functions at a few points.',
  ['src/function.py','src/fem.py'],[('Nodal.eval','src/function.py'),('Nodal.differentiate','src/function.py')],(),['Nodal.eval'])
p('N02','Explicit and constant maps evaluate their rules point by point, sample by sample',
  'An explicit function returns, for each point and each sample, exactly what that sample\'s rule with that sample\'s parameters gives at that point; a constant returns its data everywhere; both accept every documented way of passing points and return one row per point and one column per sample.',
  ['inputs','configurations'],
  'all real points and parameter values, 1-3 rules, 1-2 variables, all point formats',
  'Tests evaluate a few rules.',
  ['src/function.py'],[('Explicit.eval','src/function.py'),('Constant.eval','src/function.py'),('Map.parse_x','src/function.py')],(),['Explicit.eval','Constant.eval'])
p('A01','Quadrature rules integrate polynomials exactly on every cell, edge and interval',
  'The Gauss rules integrate every polynomial up to their degree of exactness over the reference cell, and mapped to any interval, edge or rectangle they integrate the same degree exactly there; weights are positive and sum to the measure, and nodes lie inside.',
  ['inputs','configurations'],
  'all rules offered (up to tolerance of the tabulated digits), all polynomial coefficients in [-1,1], all cell extents',
  'Tests integrate a few functions on one cell.',
  ['src/assembler.py'],[('GaussRule','src/assembler.py'),('map_rule/scale_rule','src/assembler.py')],(),['GaussRule.nodes','GaussRule.weights','GaussRule.map_rule'])
p('A02','Assembled forms equal the exact integrals they stand for',
  'For polynomial kernels and trial/test functions within the quadrature\'s exactness, every assembled scalar, vector and matrix equals the exact integral over the mesh, paired with the right degrees of freedom: u^T A v computed from the assembled matrix is the integral of the form applied to those functions. Assembly is linear in the kernel, and symmetric forms give symmetric matrices.',
  ['inputs','histories','configurations'],
  'all nodal coefficients and polynomial kernel coefficients, all refinement patterns to depth 1-2 of small meshes, derivative orders 0-1, mixed elements',
  'Tests assemble a few forms with fixed functions.',
  ['src/assembler.py'],[('Assembler.assemble','src/assembler.py'),('Form.eval','src/assembler.py'),('consolidate','src/assembler.py')],(),['Assembler.get_matrix','get_vector','get_scalar'])
p('A03','Integrals over regions are additive and restricted to the flagged entities',
  'A form restricted to a flagged set of cells or edges integrates over exactly those, so that the parts of any partition add up to the whole, also when trial and test functions live on a coarser nested sub-mesh than the integration mesh. Several samples of a kernel and several problems assembled together give the same result as each alone, and the number of samples reported is that of the form with most.',
  ['histories','inputs','configurations'],
  'all flag subsets of the cells/edges of small meshes, all nested sub-mesh pairs to depth 2, all nodal and kernel coefficients',
  'Tests integrate over one fixed region.',
  ['src/assembler.py'],[('Form.regions / in_region','src/assembler.py'),('Assembler.assemble','src/assembler.py')],(),['Assembler.get_scalar','get_matrix'])
p('A04','Integral-operator forms equal the exact double integrals',
  'Assembled integral forms equal the exact double integral (or the exact interpolated operator) of the given kernel function against the trial and test functions, with rows and columns in the right order, and a symmetric kernel gives a symmetric matrix.',
  ['inputs'],
  'all polynomial kernels of bounded degree, small interval and quadrilateral meshes, all nodal coefficients',
  'Tests use a few kernels.',
  ['src/assembler.py'],[('IPForm.eval','src/assembler.py'),('IIForm.eval','src/assembler.py')],(),['Assembler.get_matrix'])
p('S01','Solving a constrained system meets constraints and the projected equations',
  'The solution of a linear system with Dirichlet and hanging-node constraints takes exactly the prescribed boundary values, satisfies every hanging-node constraint, and satisfies the original equations projected onto the unconstrained functions, for any matrix and load.',
  ['inputs','histories'],
  'all matrix entries and right-hand sides (symbolic), all boundary markings and refinement patterns of small meshes, all prescribed boundary data, factored or not',
  'Tests solve a few Poisson problems with one hanging-node pattern.',
  ['src/solver.py'],[('LinearSystem.constrain_matrix','src/solver.py'),('constrain_rhs','src/solver.py'),('resolve_constraints','src/solver.py')],(),['LinearSystem.get_solution'])
p('S02','Re-solving with a new or multi-column right-hand side equals solving afresh',
  'Solving the same system again with another right-hand side, or with many right-hand sides at once, gives for each exactly the solution a fresh system would give, whether or not the matrix was factored before. Imposing the constraints on another vector changes exactly its constrained entries and leaves the given vector and the solution alone.',
  ['histories','inputs'],
  'all right-hand sides, 1-3 columns, sequences of up to three solves, all boundary data of small meshes',
  'Tests re-solve only with homogeneous data.',
  ['src/solver.py'],[('LinearSystem.solve_system','src/solver.py'),('set_rhs','src/solver.py')],(),['LinearSystem.get_solution'])
p('C01','Covariance factorisations act as the matrix they factor',
  'For every symmetric positive (semi-)definite matrix, multiplying, solving, and the square-root operations of a factorisation agree with each other and with the matrix: root times transposed root is the matrix, solve inverts multiply, the root solves invert the root (transposed or not), and the reconstructed matrix is the original (for a degenerate matrix handed to the Cholesky factorisation: the matrix plus a small perturbation; with eigenvalues below the lower bound: the matrix with these raised). A generalised eigendecomposition (mass matrix M) multiplies and solves with C, its eigenvectors are M-orthonormal, and its root is that of M^-1 C M^-1.',
  ['inputs'],
  'all positive (semi-)definite matrices up to 3x3 (some 4x4), all vectors, dense/sparse/degenerate, standard and generalised',
  'Tests use one fixed matrix per kind.',
  ['src/spd.py'],[('CholeskyDecomposition','src/spd.py'),('EigenDecomposition','src/spd.py')],(),['dot','solve','sqrt_dot','sqrt_solve','reconstruct'])
p('C02','Distances and covariance functions are symmetric, bounded and periodic',
  'The distance used by covariance kernels is symmetric, zero only for coinciding points (modulo the period), invariant under periodic shifts, and equals the documented (metric-weighted) length of the difference of the nearest images (for periodic domains the length itself is claimed for diagonal metrics only); every covariance function has its documented value, is symmetric in its arguments, attains its variance at distance zero and never exceeds it, and depends on the points row by row, whether called directly or as an integral kernel.',
  ['inputs'],
  'all real points, boxes, metric matrices and positive parameters, 1D and 2D',
  'Tests plot or evaluate a few kernels.',
  ['src/gmrf.py'],[('distance','src/gmrf.py'),('covariance functions','src/gmrf.py')],(),['distance','gaussian','exponential','rational','linear','constant'])
p('C03','The discretised covariance operator is the documented matrix of its kernel',
  'A Covariance built on a (sub-)mesh and element represents its kernel as documented: by interpolation its matrix is M K M, with the mass matrix M of the element and the kernel K evaluated at all pairs of dof locations; by the Galerkin method it holds the double integrals of kernel times test and trial function over all pairs of cells; kernel parameters reach the kernel, rows and columns follow the dof order, and the mass matrix that defines its inner product is that of the same sub-mesh.',
  ['inputs','histories'],
  'intervals and rectangles of any size, refinement patterns and rooted sub-meshes of small meshes, elements DQ0, DQ1, Q1, Q2, every polynomial kernel of low degree and the named kernels with any parameters',
  'The tests only construct one covariance on one mesh and plot samples; no matrix entry is compared.',
  ['src/gmrf.py','src/assembler.py'],[('Covariance.assemble','src/gmrf.py'),('Covariance.set_kernel','src/gmrf.py')],(),['Covariance.get_matrix','Covariance.get_mass_matrix'])
p('R01','Gaussian field samples and conditioning have the prescribed mean and covariance',
  'Samples generated from given white noise are mean plus a root of the covariance (or of the inverse precision) times the noise, column by column; Karhunen-Loeve samples use the terms in the requested range and truncation keeps at least the requested share of the variance; mean and canonical mean determine each other through the precision. Conditional samples (by projection) and conditional fields satisfy exact linear observations exactly, and have the conditional mean and covariance, with exact or noisy observations. A field on a restricted support is sampled, updated and conditioned within that support.',
  ['inputs'],
  'all means, noise vectors, observations and covariance/precision matrices of size <= 3',
  'Tests plot samples; conditioning tests are statistical.',
  ['src/gmrf.py','src/spd.py'],[('GaussianField.sample','src/gmrf.py'),('GaussianField.condition','src/gmrf.py'),('KL_sample','src/gmrf.py')],(),['GaussianField.sample','GaussianField.condition'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
