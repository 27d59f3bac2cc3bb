"""The one source of properties.jsonl and MANIFEST.json:  python3 tools/catalog.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, state=state))


WEAK = ('The existing tests are doctests of single documented examples; they pass with wrong numbers as long as the '
        'few printed values stay the same. ')

prop('C01', 'The discrete exterior derivative is the exact metric-free coboundary, d d = 0',
     'On every mesh, for every degree, form degree and orientation, the incidence matrix of every element has only '
     'entries -1, 0, 1, is exactly the coboundary operator of the cells of the element (Stokes\' theorem, signs of the '
     'vector proxies included), independent of the geometry, and two successive ones multiply to zero. '
     'The derivative of a form at every time with a cochain is that operator applied to its cochain, it keeps '
     'cochains single-valued across elements, and taking it twice gives zero.',
     ['inputs', 'configurations'], 'all meshes of both implementations (1d, 2d, 3d; affine, curvilinear, periodic, '
     'multi-region, unstructured, triangles), all degrees (isotropic or not, custom nodes), all forms and cochains',
     WEAK + 'None of them looks at an incidence matrix beyond one example.',
     ['msepy/space/incidence_matrix/Lambda.py', 'msehtt/static/space/incidence_matrix/main.py', 'msepy/form/coboundary.py',
      'msehtt/static/form/cochain/instant.py'],
     [('incidence matrices built from the local numberings', 'msepy/space/incidence_matrix, '
       'msehtt/static/space/incidence_matrix')],
     ['incidence matrices of the spaces', 'cochains of f.d() and of the coboundary'],
     'property-based testing: random meshes/degrees/cochains against a Stokes oracle on reference cells',
     'Sampled. The documented local numbering is the oracle.')

prop('C02', 'Reduction commutes with the exterior derivative',
     'For every smooth field F, reducing dF gives the same degrees of freedom as applying the incidence matrix to the '
     'reduction of F, up to the quadrature error of the reduction and to round-off for polynomials on affine elements. '
     'The continuous field attached to a form is differentiated by the same operator (grad, curl, rot, div with the '
     'documented signs), at every time.',
     ['inputs', 'configurations'], 'all smooth fields, times, meshes, degrees and spaces with a derivative',
     WEAK + 'No test compares the reduction of a derivative with the derivative of a reduction.',
     ['msepy/space/reduce/Lambda.py', 'msehtt/static/space/reduce/Lambda', 'msepy/form/cf.py', 'msehtt/static/form/cf.py',
      'src/spaces/operators.py'],
     [('reduction by quadrature over the nodes, edges, faces, cells', 'msepy/space/reduce, msehtt/static/space/reduce')],
     ['cochains', 'errors reported by forms', 'values of the continuous fields'],
     'property-based testing: commuting diagram as a metamorphic relation',
     'Sampled; the tolerance follows from two own quadratures of the integrals involved.')

prop('C03', 'Reduction and reconstruction are inverse de Rham maps, exact on polynomials',
     'Each degree of freedom of a reduced field is the integral of the field over its geometric object (point value, '
     'tangential or normal line integral, flux, volume integral) in the curvilinear element; the reconstruction of any '
     'cochain is its expansion in the nodal/edge basis pushed forward to the element, and integrating it over an object '
     'returns the degree of freedom. '
     'Fields of the discrete space are reproduced to round-off, with a reported error of round-off size.',
     ['inputs', 'configurations'], 'all fields, cochains, evaluation points, times, meshes, degrees and spaces',
     WEAK + 'They reduce one field on one mesh per space at most.',
     ['msepy/space/reduce/Lambda.py', 'msepy/space/reconstruct/Lambda.py', 'msepy/space/basis_functions/Lambda.py',
      'msehtt/static/space/reduce/Lambda', 'msehtt/static/space/reconstruct/Lambda', 'msehtt/static/mesh/great/elements/types'],
     [('basis functions and quadrature', 'tools/quadrature.py, msepy/tools/polynomials.py'),
      ('pullback by the element mapping', 'msepy/mesh/elements/coordinate_transformation.py')],
     ['cochains', 'reconstructed coordinates and values', 'f[t].error()'],
     'property-based testing: own integrals and own basis expansion as oracle',
     'Sampled; quadrature tolerance from own quadratures. 3d msehtt reconstruction only on orthogonal hexahedra '
     '(the code implements no other).')

prop('C04', 'Mass matrices, norms, errors and inner products are the L2 integrals',
     'Each mass matrix is symmetric positive definite and its entries are the L2 inner products of the basis forms in '
     'that (curvilinear) element up to the error of its quadrature rule, which is the nodal (Lobatto) rule where sparse matrices '
     'are asked for. '
     'The norm of a form, its L2/H1/derivative error, the norm of differences between times, the inner product of two '
     'forms and the integral of a scalar form are the corresponding integrals over the whole mesh.',
     ['inputs', 'configurations'], 'all meshes, degrees, spaces, cochains, fields and times',
     WEAK + 'No test integrates a basis function.',
     ['msepy/space/mass_matrix/Lambda.py', 'msepy/space/norm/Lambda.py', 'msepy/space/error/Lambda.py',
      'msepy/space/inner_product/main.py', 'msehtt/static/space/mass_matrix/Lambda', 'msehtt/static/space/error/Lambda',
      'msehtt/static/space/norm', 'msehtt/static/space/mass', 'msehtt/static/space/inner_product'],
     [('quadrature with the metric of the element', 'msepy/space/mass_matrix, msehtt/static/space/mass_matrix')],
     ['mass matrices', 'values of norm/error/inner_product/mass'],
     'property-based testing: own quadrature of own basis functions as oracle',
     'Sampled; quadrature tolerance from own quadratures.')

prop('C05', 'The global numbering of dofs is conforming, with the right cohomology',
     'Two local degrees of freedom have the same global number exactly if they belong to the same geometric object '
     '(modulo the periods), and the global numbers are 0..n-1 without gaps. '
     'Hence forms with single-valued cochains have single-valued traces (values, tangential or normal components) on '
     'all interfaces, also between elements of different orientation, and the global discrete complex has the Betti '
     'numbers of the domain.',
     ['inputs', 'configurations'], 'all meshes (periodic ones with at least two, msehtt three, layers), degrees, spaces',
     WEAK + 'They print one gathering matrix at most.',
     ['msepy/space/gathering_matrix/Lambda.py', 'msehtt/static/space/gathering_matrix/Lambda',
      'msehtt/static/space/local_numbering/Lambda', 'msepy/mesh/elements/main.py'],
     [('element maps / element faces drive the numbering', 'msepy/space/gathering_matrix, '
       'msehtt/static/space/gathering_matrix')],
     ['gathering matrices', 'reconstructions on element faces'],
     'property-based testing: geometric equivalence of dofs, trace continuity and homology as oracles',
     'Sampled; meshes up to about 100 elements.')

prop('C06', 'Element mappings, metrics and faces are consistent; elements tile the domain',
     'In every element the Jacobian matrix, its determinant, inverse, metric and inverse metric are those of the '
     'element mapping (also in face parametrizations, with outward unit normals and face sizes). '
     'Mappings are orientation preserving, the elements cover the configured domain without gaps or overlaps, with the '
     'requested layout and the documented mapping, and neighbouring elements share exactly their common face '
     '(modulo the periods).',
     ['inputs', 'configurations'], 'all predefined domains and meshes of both implementations, all parameters, all '
     'evaluation points',
     WEAK + 'They print a few coordinates at most.',
     ['msepy/mesh/elements/coordinate_transformation.py', 'msepy/manifold/coordinate_transformation.py', 'msepy/manifold/predefined',
      'msehtt/static/mesh/great/elements/types', 'msehtt/static/mesh/great/config', 'msepy/mesh/main.py'],
     [('coordinate transformations composed of region and element mappings', 'msepy/mesh/elements/coordinate_transformation.py, '
       'msehtt/static/mesh/great/elements/types')],
     ['ct.mapping / Jacobian_matrix / Jacobian / inverse_Jacobian / metric', 'faces: mapping, outward normals'],
     'property-based testing: finite differences, documented formulas, total size and face matching as oracles',
     'Sampled; the finite-difference Jacobian is accurate to about 1e-10.')

prop('C07', 'Boundary sections select exactly their faces; their dofs and integrals are right',
     'A boundary section consists of exactly the boundary faces selected by its configuration, and it together with the '
     'complementary section covers the boundary once. '
     'The dofs of a form on it are exactly those of the geometric objects lying on these faces, and essential boundary '
     'values, natural boundary integrals and fluxes over sections equal those of the prescribed fields.',
     ['inputs', 'configurations'], 'all bounded meshes of both implementations, all selections of faces, spaces, fields, times',
     WEAK + 'They use one partition of one boundary.',
     ['msepy/mesh/boundary_section', 'msepy/manifold/main.py', 'msehtt/static/mesh/partial',
      'msepy/tools/linear_system/dynamic/bc.py', 'msehtt/static/form'],
     [('boundary units of regions turned into element faces', 'msepy/mesh/boundary_section, msehtt/static/mesh/partial')],
     ['faces of boundary sections', 'dofs on faces', 'boundary integral vectors', 'reduce on sections'],
     'property-based testing: own classification of faces, dof positions and quadrature as oracles',
     'Sampled. Natural boundary integrals only where the code supports them.')

prop('C08', 'Local/assembled matrices, vectors and linear systems equal dense linear algebra',
     'Every expression of local matrices and vectors (sums, products, transposes, inverses, factors, blocks) evaluates in every '
     'element to the same dense expression, in whatever order elements are read, without changing its operands or sharing '
     'customized data. '
     'Assembling sums local entries through the gathering matrix; setting dofs, identifying or zeroing rows, setting values '
     '(any index form) gives exactly the assembled system it describes. '
     'Solving an assembled block system solves the assembled equations, and the update hands every unknown its own dofs back.',
     ['inputs', 'histories'], 'all expressions, block structures, customizations, orders of reads, meshes and spaces, '
     'matrices that are constant, cached by geometry, or unique per element',
     WEAK + 'No test compares an assembled system with anything.',
     ['msepy/tools/matrix/static/local.py', 'msepy/tools/vector/static/local.py', 'msepy/tools/linear_system/static/local',
      'msehtt/tools/matrix/static/local.py', 'msehtt/tools/vector/static/local.py', 'msehtt/tools/linear_system/static/local',
      'msepy/tools/gathering_matrix.py', 'msehtt/tools/gathering_matrix.py'],
     [('lazy element-wise expressions with cache keys', 'msepy/tools/matrix, msehtt/tools/matrix')],
     ['local matrices and vectors', 'assembled matrices and vectors', 'solutions', 'cochains after an update'],
     'property-based testing: model-based, random expression DAGs and systems against dense matrices',
     'Sampled. Small systems.')

prop('C10', 'A discretized weak formulation becomes exactly the linear system it denotes',
     'For any linear weak formulation (identity, derivative, integrated-by-parts codifferential, and time-derivative terms of any '
     'signs on any sides; split, averaged, rearranged, negated or deleted terms) the system built for a step is, block by block, '
     'the signed sum of mass/incidence products, with known forms taken at their own instants on the right. '
     'Natural conditions add exactly their boundary integrals at their instant, essential ones put the reduced boundary values at '
     'the new instant on exactly the boundary dofs of that unknown, and building or using one system changes no matrix of the spaces '
     'nor any later system. '
     'Elliptic problems with solutions in the spaces are solved to round-off for any split of the boundary.',
     ['inputs', 'histories'], 'all linear formulations, orders of derivations, meshes, partitions of the boundary, time steps in any order',
     WEAK + 'The gallery tests solve two fixed formulations.',
     ['src/wf', 'src/pde.py', 'src/bc.py', 'src/wf/mp', 'msepy/tools/linear_system/dynamic', 'msehtt/tools/linear_system/dynamic',
      'src/time_sequence.py'],
     [('symbolic derivation on terms', 'src/wf/derive.py'), ('matrix proxy', 'src/wf/mp'),
      ('parsing of abstract arrays', 'msepy/tools/linear_system/dynamic, msehtt/tools/linear_system/dynamic')],
     ['assembled systems per step', 'cochains of the unknowns after an update', 'solutions of manufactured problems'],
     'property-based testing: model-based (a list-of-terms model runs next to the symbolic derivation; dense composition as oracle) and '
     'manufactured solutions',
     'Sampled. Two or three unknowns, small meshes; linear terms.')

prop('C19', 'Vector calculus of continuous fields equals calculus, on every kind of field',
     'Every arithmetic, product and differential operator of the 1-, 2- and 3-d scalar, vector and tensor wrappers (also nested, of '
     'steady fields, zero fields, fields with some analytic derivatives) evaluates at any points and times to the mathematical '
     'expression, within the error of a central difference where a derivative is not given, and never changes its operands. '
     'The exterior derivative, codifferential (the formal adjoint) and time derivative of a continuous form follow degree and '
     'orientation, region by region.',
     ['inputs'], 'all expressions of fields, points of any shape, times, degrees, orientations, regions',
     WEAK + 'Doc tests compare single partial derivatives of one function.',
     ['tools/functions/time_space', 'tools/numerical', 'tools/vector_calculus.py', 'msepy/form/cf.py', 'msehtt/static/form/cf.py',
      'src/spaces/operators.py', 'tools/functions/region_wise_wrapper.py'],
     [('wrappers with numerical derivatives', 'tools/functions/time_space'), ('operator tables', 'src/spaces/operators.py')],
     ['values of fields at points'],
     'property-based testing: model-based (random expression DAGs against an own symbolic differentiator)',
     'Sampled. At most two nested numerical derivatives.')

prop('C21', 'The cochain history of a form is a faithful map from time to cochain',
     'For every sequence of setting (directly, by reduction, through vectors, copies, callables or forms at abstract times), overwriting, '
     'adding to, and cleaning cochains, each retained instant (times equal to 8 digits are one) returns exactly what was last stored; '
     'nothing else changes, `newest` is the largest time, and cleaning, automatic or not, keeps the newest instants as documented. '
     'Interpolation in time is linear between the neighbouring instants and refused outside them, and forms derived by +, - and d '
     'follow the cochains dof by dof.',
     ['histories', 'inputs'], 'all operation sequences on two forms of a space and their derived forms, auto-cleaning settings, times',
     WEAK + 'Tests set one or two instants in increasing order.',
     ['msepy/form/main.py', 'msepy/form/cochain/main.py', 'msehtt/static/form/cochain/main.py', 'msehtt/static/form/cochain/instant.py',
      'msehtt/static/form/main.py', 'msehtt/static/form/addons/ic.py', 'src/config.py'],
     [('cochain dictionaries', 'msehtt/static/form/cochain/main.py'), ('interpolation copies', 'msehtt/static/form/addons/ic.py')],
     ['returned cochains, membership, newest, times'],
     'property-based testing: model-based testing of operation sequences against a dictionary',
     'Differences of forms with continuous fields in 1d are not supported by the code.')

prop('C25', 'Results do not depend on what was computed before in the process',
     'Matrices, gathering matrices, reductions, reconstructions, errors, norms, inner products, interpolations, basis functions and '
     'geometric factors of a discretization are the same whether it is the only work of the process or follows work on other meshes, '
     'domains, degrees, nodes or deformations, however similar; asking in another order, or again, or with other arguments in '
     'between gives the same answers. Overwriting the cochain of a form, or changing an argument, is reflected in every later '
     'answer, and earlier discretizations of the same dimension keep answering as before.',
     ['histories', 'configurations', 'inputs'], 'histories of one to three other discretizations (perturbed by 1e-9 to 5e-2 in bounds, '
     'spacing, nodes, deformation, degree, periodicity; or unrelated) and permuted, repeated queries with varied arguments',
     WEAK + 'Each test runs one discretization; nothing compares an answer with the answer of a fresh process.',
     ['msepy/space/mass_matrix/main.py', 'msepy/space/mass_matrix/Lambda.py', 'msepy/mesh/main.py', 'msepy/mesh/elements/main.py',
      'msehtt/static/form/addons/ic.py', 'msepy/form/numeric/main.py', 'msepy/tools/polynomials.py',
      'msehtt/static/space/mass_matrix/main.py', 'src/spaces/main.py'],
     [('caches keyed by rounded numbers, signatures or representations', 'across the code base')],
     ['all numbers returned by the queries, in a fresh process and after other work'],
     'property-based testing: differential between forked processes with different generated histories',
     'Starting over with another embedding dimension ends earlier sessions; their discretizations are not asked again.')

prop('C20', 'Quadrature rules and one-dimensional basis functions satisfy their definitions',
     'For every degree, Gauss and Lobatto rules have increasing nodes in [-1, 1] (Lobatto including both ends exactly), positive weights, '
     'and integrate polynomials exactly up to degree 2p+1 or 2p-1; rules in two and three dimensions, with mixed degrees and types, are '
     'the tensor products in every layout (per axis, meshgrid, raveled). The nodal functions on Lobatto or customized nodes are the '
     'Lagrange polynomials of the nodes and the edge functions integrate to one over their own edge and zero over the others, at any '
     'points, however often and in whatever order they are evaluated; reference mass matrices are exact.',
     ['inputs', 'histories'], 'all degrees (to 40 for quadrature), types, mixed axes, node distributions (also nearly equal ones), evaluation points, '
     'long sequences of evaluations',
     WEAK + 'No test looks at a rule or a basis function directly.',
     ['tools/quadrature.py', 'msepy/tools/polynomials.py', 'tools/miscellaneous/ndarray_cache.py'],
     [('rules cached by degree and type', 'tools/quadrature.py'), ('basis values cached by nodes and points', 'msepy/tools/polynomials.py')],
     ['nodes, weights, basis values, reference mass matrices'],
     'property-based testing: algebraic definitions as oracle over generated degrees, nodes, points and evaluation histories',
     'Degrees of quadrature to 40, basis functions to degree 14 (Lobatto) or 7 (customized nodes).')

prop('C13', 'Multilinear terms are the integrals they denote, in every role and place',
     'Terms (A x B, C), (A x B, dC), (A x B, C x D), the duality versions, scalar-times-vector versions and tensor products of bundle-valued '
     'forms (A, B tp C), (dA, B tp C), convection terms (A . grad B, C), with any supported '
     'choice of spaces, of known forms (both, the first, the second, none), sign, factor and side of the equation, contribute to the linear '
     'system the integral of the product of the fields they denote, both as vectors and as matrices, at the right equation, unknown and time. '
     'With none known, k forced Newton iterations of the nonlinear system give exactly the k Newton iterates of that residual and its Jacobian; '
     'rotating or swapping the three forms of a cross-product term, and turning an inner product with a Hodge into a duality pairing, '
     'give the same integral (forms, sign, factor) and change no other term.',
     ['inputs', 'configurations'], 'all supported terms of up to three forms in 2d and 3d of both implementations, meshes, degrees, cochains, '
     'placements of the terms, time steps, numbers of iterations',
     WEAK + 'A program uses two or three of about a hundred supported combinations.',
     ['msehtt/static/form/addons/nop_data_computer', 'msepy/tools/nonlinear_operator', 'msepy/tools/nonlinear_system',
      'msehtt/tools/nonlinear_system', 'src/wf/term/pattern.py', 'src/wf/term/main.py', 'src/wf/term/ap.py', 'msehtt/tools/nonlinear_system/dynamic/nop_parser.py'],
     [('three-entry data and its caches', 'msehtt/static/form/addons/nop_data_computer'),
      ('nonlinear terms and their derivatives', 'msepy/tools/nonlinear_system')],
     ['blocks of the assembled system', 'Newton iterates'],
     'property-based testing: differential testing against own residual, Jacobian and Newton iteration from own quadrature',
     'Mass, incidence and gathering matrices are taken from the code (C02, C03, C05 judge them). Sampled; 3d with degrees up to 2.')

prop('C14', 'Nonlinear solvers iterate, stop, report and honour constraints as documented',
     'From the newest cochains, each iteration of a nonlinear system is the Newton (or Picard) step of its residual; iterations stop exactly when '
     'the reported norm of the increment is below atol, at maxiter, on divergence or stagnation, the convergence info says which (0 only for atol), '
     'the reported residuals are these norms, and a maxiter given as a string is the only criterion. '
     'Fixed, initialized, set and additionally constrained degrees of freedom and essential boundary conditions, in any combination, hold exactly '
     'and every other equation is unaffected; over several time steps no known cochain changes.',
     ['inputs', 'histories', 'configurations'], 'nonlinear systems of three forms with all term kinds, customizations, boundary sections, '
     'tolerances, one or two time steps, both implementations',
     WEAK + 'Samples check two printed digits of one converged run.',
     ['msepy/tools/nonlinear_system/static', 'msehtt/tools/nonlinear_system/static', 'msepy/tools/linear_system/dynamic/bc.py',
      'msehtt/tools/nonlinear_system/dynamic', 'msehtt/tools/linear_system/static/local/main.py', 'msehtt/tools/matrix/static/local.py'],
     [('customizations and their bookkeeping', 'msepy/tools/nonlinear_system/static/customize.py, '
       'msehtt/tools/nonlinear_system/static/customize.py')],
     ['cochains after solving', 'info of the solver'],
     'property-based testing: differential testing against own constrained Newton and Picard iterations',
     'The residuals and Jacobians are those of C13. Picard where the code implements it (msehtt, some linear matrix depends on a known form).')

prop('C22', 'What is saved is what is read, across sessions and element numberings',
     'A form saved to a file and read in a fresh process, into the same mesh, a mesh read from a file, or a mesh with the same elements under other '
     'names and in another order, has exactly the saved cochains at the saved times on every element and reconstructs the same field; cochains at '
     'other times, already there, are untouched. A mesh read from a .phm file has the same elements, mappings and numberings. '
     'Data sets, groups of data sets (with the names of their variables) and pickled objects read back equal, through their class and through ph.read.',
     ['inputs', 'histories', 'configurations'], 'meshes of both implementations, several forms and times, orders of saving and reading, '
     'renumbered and partial meshes; data sets of generated shapes',
     WEAK + 'No sample writes a file in one process and reads it in another.',
     ['msehtt/static/form/main.py', 'msehtt/static/form/cochain', 'msehtt/static/mesh/great/main.py', 'msehtt/static/mesh/great/elements/types/base.py',
      'msepy/form/main.py', 'tools/save.py', 'tools/read.py', 'tools/dds', 'tools/miscellaneous/pickle_.py'],
     [('element signatures tie cochains to elements', 'msehtt/static/mesh/great/elements/types/base.py')],
     ['files', 'cochains', 'reconstructed values'],
     'property-based testing: round trips through files between forked sessions',
     'Every session is a forked process; 3d .phm files are NotImplemented.')

prop('C23', 'Data sets carry the fields of the forms; computing with them is pointwise',
     'A data set made from a form (rws, export, dds, ph.rws, mesh.rws; component-wise or not) holds, region by region, the coordinates and reconstructed '
     'values of that form at that time, and interpolating a form returns a nearest sample. '
     'Sums, differences, scaling, powers, products, norms and maxima of data sets are those of their values point by point and leave the operands alone; '
     'interpolating linear data and the stream function of a divergence-free linear field, for any regions, orientation and starting corner, are exact.',
     ['inputs', 'histories', 'configurations'], 'forms of both implementations on all mesh types; generated sequences of operations; generated region layouts',
     WEAK + 'No sample computes with data sets or checks a stream function beyond one mesh.',
     ['tools/dds/region_wise_structured.py', 'tools/dds/region_wise_structured_group.py', 'msehtt/static/form/numeric', 'msehtt/static/form/addons/static.py',
      'msepy/form/numeric', 'msehtt/static/mesh/partial'],
     [('stream function region by region through shared corners', 'tools/dds/region_wise_structured.py')],
     ['data sets', 'interpolated values'],
     'property-based testing: differential testing against reconstruction and pointwise array computations',
     'Stream functions of linear fields, where the trapezoidal rule is exact.')

prop('C26', 'A msehtt program gives the same results on any number of processes',
     'Run with mpi on several ranks, a msehtt program makes the same mesh, gathering matrices, boundary sections, cochains, incidence, reconstructions, errors, '
     'norms, fluxes, data sets, files, assembled systems, conditions and solutions (direct, gmres, lgmres) as on one, up to the numbering of dofs and '
     'the direction of shared edges; every element is in exactly one rank. '
     'Collective results are known to all ranks and identical there, master-only results are complete in the master and absent elsewhere.',
     ['inputs', 'configurations'], '2 to 4 ranks; generated 2d and 3d meshes of all types, degrees, fields, mixed Poisson problems with boundary conditions',
     WEAK + 'No sample is run on several ranks.',
     ['src/config.py', 'msehtt/static/mesh/great/main.py', 'msehtt/static/mesh/great/elements/main.py', 'msehtt/static/space/gathering_matrix', 'msehtt/static/form/cochain',
      'msehtt/tools/matrix/static/global_.py', 'msehtt/tools/vector/static/global_gathered.py', 'msehtt/tools/vector/static/global_distributed.py',
      'msehtt/tools/linear_system/static/global_/solve.py', 'msehtt/static/mesh/partial'],
     [('element distribution', 'msehtt/static/mesh/great/main.py'), ('gathering matrices built in the master', 'msehtt/static/space/gathering_matrix')],
     ['results of all ranks'],
     'property-based testing: differential testing of runs with mpi ranks (real processes over shared memory) against one process',
     'More ranks than elements, which the library rejects, are excluded.')

prop('C09', 'Linear solvers deliver what they report, from the given initial guess',
     'gmres and lgmres (msehtt, any number of ranks) start from the given vector, the newest cochains or zero, minimize the residual over their (augmented) Krylov '
     'space in every cycle (as long as the Gram-Schmidt basis stays orthogonal) - breakdown and spaces larger than the system included - and stop exactly when converged, slow or out of cycles; '
     'info is 0 if and only if the residual of the returned solution is below atol. '
     'Direct, least-squares and preconditioned schemes solve the assembled system; solving changes neither the system nor the guess, and solutions reach the unknowns.',
     ['inputs', 'configurations'], 'random definite, general, saddle-point, clustered, singular and form-based systems; restarts, tolerances, guesses; 1 to 3 ranks',
     WEAK + 'Samples only solve directly.',
     ['msehtt/tools/linear_system/static/global_/solvers/mpi_py.py', 'msehtt/tools/linear_system/static/global_/solve.py',
      'msepy/tools/linear_system/static/assembled/solve.py', 'msepy/tools/linear_system/static/assembled/solvers/_scipy.py',
      'msehtt/tools/linear_system/static/local/main.py', 'msepy/tools/nonlinear_system/static/solve/Newton_Raphson.py'],
     [('restarted (l)gmres over ranks', 'msehtt/tools/linear_system/static/global_/solvers/mpi_py.py')],
     ['solutions', 'info', 'residual histories'],
     'property-based testing: a reference Krylov method with reorthogonalization and dense least squares, residuals recomputed',
     'maxiter=0 is excluded (its info is 0 by definition).')

prop('C11', 'Conservative time-stepping schemes conserve: energy, mass, power balance',
     'For the implicit midpoint discretization (differentiate, average, split, rearrange) of canonical linear waves da/dt = d b, db/dt = -codifferential a (any degree of '
     'form, orientation, mesh and library), energy is conserved by every step, da/dt = d b holds dof by dof, and with natural/essential conditions on any partition '
     'of the boundary the change of energy is the power through the boundary. '
     'For incompressible flow with a given vorticity the kinetic energy is conserved and velocities are (weakly) divergence-free, step by step.',
     ['inputs', 'configurations', 'histories'], 'random initial cochains, time steps, signs, forms of the equations, meshes, degrees, sections, several steps',
     WEAK + 'Samples print such quantities for one mesh.',
     ['src/wf/main.py', 'src/wf/td.py', 'src/wf/derive.py', 'src/wf/mp/main.py', 'msepy/tools/linear_system/dynamic/main.py', 'msehtt/tools/linear_system/dynamic/main.py'],
     [('temporal discretization', 'src/wf/td.py'), ('block terms', 'msehtt/tools/linear_system/dynamic/array_parser.py'), ('block terms', 'msepy/tools/linear_system/dynamic/array_parser.py')],
     ['energies', 'cochains of every step'],
     'property-based testing: conservation laws (invariants over the history of steps) recomputed from cochains and mass matrices',
     'Systems too ill conditioned or inconsistent (singular) are excluded.')

prop('C29', 'Geometric predicates agree with exact geometry',
     'Points, segments, lines, convex polygons, curves (plane) and points, segments, rectangles, boxes (space) answer equality, containment, "is exactly the union of '
     'some of these parts", parallelism, intersection, union and measure (length, area, volume) as exact geometry does, whatever the order of end points, vertices or '
     'parts and up to round-off of coordinates. An object and each of its parts have the same group key; intervals respect whether they are open or closed.',
     ['inputs', 'configurations'], 'random lattice objects, cuts into parts, missing or extra parts, orientations, scales, shifts, noise of round-off size',
     WEAK + 'No test calls them with anything but the elements of one pair of meshes.',
     ['tools/miscellaneous/geometries/m1n1.py', 'tools/miscellaneous/geometries/m2n2.py', 'tools/miscellaneous/geometries/m3n3.py',
      'msehtt/multigrid/mesh/great/dof_correspondence/global_.py'],
     [('predicates', 'tools/miscellaneous/geometries/m2n2.py'), ('boxes', 'tools/miscellaneous/geometries/m3n3.py')],
     ['results of predicates', 'measures', 'group keys'],
     'property-based testing: differential against exact rational arithmetic on lattice objects, under similarity maps and permutations',
     'Objects coincide or differ clearly (no near-coincidences between the tolerance and the lattice); overlays that the geometry library itself gets wrong are excluded.')

prop('C30', 'Functions given piecewise, on lines, or as geometry evaluate to what they denote',
     'A piecewise function equals, point by point, the function of the (last) condition that holds there (or the default or fill value); scalars and vectors on lines '
     'equal the function of the first line through the point and zero elsewhere. Straight lines, arcs and transfinite maps interpolate their ends and edges with the '
     'right derivatives (wrong ones are rejected); angles, intersections, coordinate switches, multiples of functions and reduced row echelon forms are exact.',
     ['inputs', 'configurations'], 'random conditions, functions, shapes, lattice lines and points, arcs, edges, triangles, matrices',
     WEAK + 'Samples use one or two of them on one domain.',
     ['tools/gen_piece_wise.py', 'tools/functions/time_space/_2d/wrappers/scalar_on_lines.py', 'tools/functions/time_space/_2d/wrappers/vector_on_lines.py',
      'tools/functions/space/_2d/transfinite.py', 'tools/functions/space/_2d/geometrical_functions/clockwise_arc.py', 'tools/miscellaneous/rref.py'],
     [('piecewise', 'tools/gen_piece_wise.py'), ('transfinite interpolation', 'tools/functions/space/_2d/transfinite.py')],
     ['values of functions', 'derivatives'],
     'property-based testing: differential against pointwise evaluation, closed forms, finite differences and exact rational arithmetic',
     'Points of functions on lines are on a line up to round-off, or clearly off it.')

prop('C33', 'Sample solutions satisfy the equations they are samples of',
     'For every parameter, time and point, the fields of each sample (Navier-Stokes, MHD, Hall MHD, PNP-NS, wave, L-corner, cavity, vortices) satisfy their relations: '
     'solenoidal fields, vorticity, current, Faraday and Ohm laws, momentum and concentration balances with the given sources, stated boundary conditions, energies. '
     'Objects made before do not matter.',
     ['inputs', 'configurations'], 'random parameters, times, points, samples constructed before',
     WEAK + 'Tests use samples as references without checking them.',
     ['tools/samples/manuSolution_Hall_MHD.py', 'tools/samples/manuSolution_MHD3.py', 'tools/samples/manuSolution_MHD2.py', 'tools/samples/manuSolution_PNPNS2.py',
      'tools/samples/manuSolution_NS2.py', 'tools/samples/manuSolution_Eigen2.py', 'tools/samples/iniCond_Orszag_Tang_vortex.py'],
     [('manufactured solutions', 'tools/samples/main.py')], ['values of the fields and sources'],
     'property-based testing: residuals of the equations by an own fourth-order difference calculus on the sample fields',
     'Derivatives that phyem takes numerically are compared with a tolerance of 1e-3 to 1e-1 by order; Hall_MHD3_3 is not required to have a solenoidal velocity.')

prop('C31', 'Bundle-valued forms equal the stack of their scalar-valued rows',
     'In 2D and 3D every bundle-valued form (one scalar-valued form per row, possibly of different degrees) has the dofs, numbering, incidence and mass matrices, coboundary, '
     'reduction, reconstruction and error of its rows stacked, and its inner products, exterior derivative, rot and divergence are those of the rows. '
     'Projection matrices are L2 projections and the identity between nested spaces on the smaller one, wedge matrices hold the integrals of products, and a Hodge matrix solves M h = W c.',
     ['inputs', 'configurations'], 'random meshes, degrees (per row and per component), node types, fields, cochains, quadrature accuracies',
     WEAK + 'No test builds bundle numbering or incidence; the 3D bundle is touched by one test on one mesh.',
     ['msepy/space/gathering_matrix/bundle.py', 'msepy/space/incidence_matrix/bundle.py', 'msepy/space/mass_matrix/bundle.py', 'msepy/space/reduce/bundle.py', 'msepy/space/reconstruct/bundle.py',
      'msepy/space/reconstruction_matrix/bundle.py', 'msepy/space/error/bundle.py', 'msepy/space/local_numbering/bundle.py', 'msepy/space/addons/Hodge.py', 'msepy/space/addons/projection.py',
      'msepy/space/wedge_matrix/Lambda.py', 'msepy/space/inner_product/main.py', 'msepy/form/numeric/main.py', 'msepy/space/degree.py'],
     [('bundle spaces', 'msepy/space/mass_matrix/bundle.py'), ('projection', 'msepy/space/addons/projection.py'), ('Hodge', 'msepy/space/addons/Hodge.py')],
     ['cochains', 'reconstructed values', 'matrices', 'errors'],
     'property-based testing: differential against the scalar-valued rows and independent high-order quadrature',
     'msepy only (msehtt has no bundle-valued spaces); not in 1D.')

prop('C18', 'Times, parameters and time discretization evaluate to what they denote',
     'A constant time sequence has instants t_0 + k dt, valid exactly at the multiples of 1/factor in its range extended by one step on each side, whatever round-off the index carries; function sequences take one step '
     'per new instant. Abstract instants, intervals (and 1/dt) and parameters (numbers, functions, sums, quotients) evaluate to the expressions they denote, and asking again for an instant returns the same one. '
     'Discretizing a weak formulation in time (differentiate, average, split by factors) gives a system whose matrices and vectors carry exactly the denoted difference quotients and means at those instants.',
     ['inputs', 'configurations', 'histories'], 'random sequences, index expressions, parameters, discretization schemes, factors, cochains, in msepy and msehtt',
     WEAK + 'Tests use one mid-point rule with integer indices.',
     ['src/time_sequence.py', 'src/form/parameters.py', 'src/wf/td.py', 'src/ode/main.py', 'src/ode/discretize.py', 'src/wf/derive.py', 'src/wf/term/main.py'],
     [('sequences', 'src/time_sequence.py'), ('parameters', 'src/form/parameters.py'), ('time discretization', 'src/ode/discretize.py')],
     ['values of instants, intervals, parameters', 'accepted and rejected indices', 'assembled matrices and vectors'],
     'property-based testing: differential against exact rational evaluation of random expressions; model-based histories for function sequences; assembled systems against sums of known matrices',
     'Instants are built from expressions in k by + - * /; factors given to split replace the factors of the term.')

prop('C24', 'Sweeps and iterations survive crashes: every case computed once and recorded',
     'A sweep (serial or parallel runner) and an iteration compute every case in order and record its inputs and outputs exactly, in memory and on disk. After any crashes (the solver raises, the last '
     'row is torn, a cache cannot be written) and restarts, or an extension of the inputs, the record equals that of an uninterrupted run, saved work is not computed again, and cached objects (forms) come back as they were saved. '
     'The record of computed inputs answers membership exactly, and durations and dates written as text read back as the same times.',
     ['inputs', 'histories', 'crash_points', 'configurations'], 'random inputs and outputs, crash points, numbers of lost bytes, caching intervals, input orders, forms and meshes',
     WEAK + 'No test restarts anything.',
     ['tools/legacy/serialRunners/_runner_.py', 'tools/legacy/serialRunners/INSTANCES/matrix3d_input_runner.py', 'tools/legacy/runners/_3d_matrix_inputs/main.py', 'tools/runner.py', 'tools/iterator/main.py',
      'tools/iterator/monitor.py', 'tools/miscellaneous/numpy_styple.py', 'tools/miscellaneous/timer.py', 'msehtt/static/form/main.py'],
     [('sweeps', 'tools/legacy/serialRunners/_runner_.py'), ('iterations', 'tools/iterator/main.py'), ('cached forms', 'msehtt/static/form/main.py')],
     ['result tables', 'files on disk', 'calls of the solver', 'restored states'],
     'property-based testing with injected faults: random crash histories against an uninterrupted reference run',
     'A crash loses at most the last bytes of the last row; a restarted iteration receives the same inputs or more of them, in the same order.')

prop('C27', 'Adaptive meshes: every generation is correct, cochains follow the mesh',
     'In any history of refinements and coarsenings of an adaptive msehtt session every generation is a conforming mesh that refines exactly the coarse elements the indicator selects, '
     'and its forms, numbering, matrices, reduction, reconstruction, errors, boundary sections and assembled systems equal those of the static mesh with the same refinement. '
     'Cochains are transferred to the new mesh: unchanged meshes and elements away from a change keep them, a constant field stays exact, others stay within the interpolation error; only selected forms '
     'are transferred, old cochains are dropped on request, and the flag "all same" tells whether the mesh changed. '
     'Data saved in one generation restore its mesh and newest cochain in a later one, and a session leaves no trace in sessions that come after it in the process.',
     ['inputs', 'configurations', 'histories'], 'random quadrilateral domains, indicators, thresholds, refinement strengths, fields, degrees, transfer methods, histories of up to 4 renewals',
     WEAK + 'The two adaptive tests run one fixed history each and check no transferred value.',
     ['msehtt/adaptive/main.py', 'msehtt/adaptive/form/main.py', 'msehtt/adaptive/form/renew/main.py', 'msehtt/adaptive/form/renew/method_3_local_interpolation.py', 'msehtt/adaptive/mesh/main.py',
      'msehtt/static/mesh/great/config/msepy_trf.py', 'msehtt/static/mesh/great/config/trf.py', 'msehtt/adaptive/tools/linear_system.py'],
     [('renewal', 'msehtt/adaptive/main.py'), ('cochain transfer', 'msehtt/adaptive/form/renew/main.py'), ('refinement', 'msehtt/static/mesh/great/config/msepy_trf.py')],
     ['elements', 'cochains', 'matrices', 'assembled systems'],
     'property-based testing: generated renewal histories against static counterparts and the exact field',
     'Coarse meshes of straight quadrilaterals (others cannot be refined twice); int degrees; linear systems.')

prop('C28', 'Multigrid sessions: every level is the refined static mesh, passing is sound',
     'Every level of a multigrid msehtt session has the mesh, forms, numbering, matrices, boundary sections and assembled systems (boundary conditions and customisations included) of the static mesh with that refinement. '
     'Passing a cochain to a finer or coarser level by global dofs keeps constants and the dofs whose geometric objects both levels share, stays within the sampling error elsewhere, and a nested correspondence is reported as such. '
     'A cycle scheme is a walk over the layers whose restrictions and interpolations pair up, and solving with it gives the solution of the finest level, in the forms of all levels.',
     ['inputs', 'configurations'], 'random quadrilateral domains, levels, degrees (also MG-N), fields, orders of access, boundary conditions, customised dofs, cycle schemes',
     WEAK + 'The multigrid tests run one fixed problem each.',
     ['msehtt/multigrid/main.py', 'msehtt/multigrid/form/main.py', 'msehtt/multigrid/form/addons/static.py', 'msehtt/multigrid/mesh/great/main.py', 'msehtt/multigrid/mesh/great/pass_.py',
      'msehtt/multigrid/mesh/great/dof_correspondence/global_.py', 'msehtt/multigrid/tools/linear_system/static/solvers/multigrid.py', 'tools/miscellaneous/multigrid_scheme.py'],
     [('levels', 'msehtt/multigrid/mesh/great/main.py'), ('passing', 'msehtt/multigrid/mesh/great/pass_.py'), ('cycles', 'tools/miscellaneous/multigrid_scheme.py')],
     ['elements', 'cochains', 'matrices', 'assembled systems', 'schemes'],
     'property-based testing: generated levels and passes against static counterparts and shared geometric objects',
     'Straight quadrilaterals in 2D (nothing else refines); linear systems; schemes V, N, W, FMG as walks, V and N as solvers.')

prop('C16', 'Equations and weak formulations say what was written, through every derivation',
     'A system of equations written as text (or given as terms and signs) has exactly the written terms, with their signs, sides, order and indices; its boundary conditions are those defined on each section. '
     'Testing pairs every term with the test form of its equation, a parameter becoming the factor, and needs no names from the user. '
     'Any sequence of derivations (replacing, deleting, splitting, rearranging, switching signs, integration by parts, replacing forms inside terms, merging, rewriting as text) changes exactly the terms it names, to terms '
     'with the same sum, and leaves earlier formulations, unknowns, test forms and boundary conditions as they were.',
     ['inputs', 'histories'], 'random systems of one to three equations on manifolds of dimension 1 to 3, periodic or not, with tricky names and spacing, and up to seven derivations',
     WEAK + 'Tests write a few fixed programs whose derivations are never compared with anything.',
     ['src/pde.py', 'src/wf/main.py', 'src/wf/derive.py', 'src/wf/term/main.py', 'src/form/main.py', 'src/bc.py'],
     [('equations', 'src/pde.py'), ('derivations', 'src/wf/derive.py'), ('terms', 'src/wf/term/main.py')],
     ['terms, signs and indices of the formulations', 'elementary forms', 'boundary conditions'],
     'property-based testing: model-based histories of derivations against a list-of-terms model',
     'Symbolic only: terms are compared by the forms they pair, their kind and factor; the numbers behind them are judged by C10 and C13.')

prop('C32', 'Operators on symbolic forms land in the spaces exterior calculus prescribes',
     'A space is one object, determined by mesh, kind, degree k and orientation, however it is asked for, and nothing built later changes it. '
     'Every operator on forms (derivative, codifferential, Hodge, wedge, trace, time derivative, projection, products, sums, multiples, evaluation at an instant) gives a form in the space exterior calculus prescribes, on the right mesh, and is refused where it is not defined. '
     'Different expressions have different representations, equal ones the same, and a form knows exactly the root forms it is made of.',
     ['inputs', 'histories'], 'random sequences of spaces, forms and operators, on meshes and boundaries of 1, 2 and 3 dimensions',
     'The tests use each operator once or twice in fixed formulations; none looks at identities after other spaces were made.',
     ['src/spaces/operators.py', 'src/spaces/main.py', 'src/spaces/base.py', 'src/spaces/continuous/Lambda.py', 'src/spaces/continuous/bundle.py', 'src/form/operators.py', 'src/form/main.py', 'src/mesh.py', 'src/manifold.py'],
     [('spaces', 'src/spaces/operators.py'), ('forms', 'src/form/operators.py'), ('identity', 'src/spaces/main.py')],
     ['spaces', 'forms', 'representations'],
     'property-based testing: stateful generation of expressions against a model of spaces and expressions',
     'Nested sums are left out of the uniqueness of representations (a-(b-c) and (a-b)-c are written alike); products of proxies follow a table.')

prop('C34', 'Files written for VTK hold the sampled field on the mesh',
     'For every mesh, form, degree, instant and sampling density, the file a form (or several forms together) is exported to holds the mapped samples of each element, one point per place, shared by neighbours. '
     'Its cells are those of the sampled elements, each with its corners in the order VTK prescribes. '
     'Its point data, under the names of the forms, are the values of the forms at that instant, by every way to export, whatever was exported before.',
     ['inputs', 'histories'], 'random 2d and 3d meshes of both libraries, one to three forms, one to three exports in a session',
     'The tests never read an exported file.',
     ['tools/vtk_/main.py', 'tools/vtk_/msehtt_form_static_copy.py', 'msepy/form/visualize/vtk_.py', 'msepy/form/visualize/main.py', 'msepy/tools/vtk_.py', 'msehtt/static/form/export/main.py', 'msehtt/static/form/visualize/main.py', 'msehtt/static/mesh/great/elements/types/vtu_9_quad.py', 'msehtt/static/mesh/great/elements/types/orthogonal_rectangle.py', 'msehtt/static/mesh/great/elements/types/orthogonal_hexahedron.py'],
     [('msepy', 'msepy/form/visualize/vtk_.py'), ('msehtt', 'tools/vtk_/msehtt_form_static_copy.py'), ('points', 'msepy/tools/vtk_.py')],
     ['points', 'cells', 'values'],
     'property-based testing: round trip through an own reader of the files against own samples of the forms',
     'Between elements, the value of any of them is accepted; only element types with an export.')

# ---------------------------------------------------------------------------------------------------- output
NOT_CLAIMED = []


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'state': list(p['state']),
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    checks = []
    for p in P:
        if os.path.exists(os.path.join(ROOT, 'checks', p['id'] + '.py')):
            checks.append({'property': p['id'], 'quick_cmd': f"./vp check {p['id']} quick",
                           'thorough_cmd': f"./vp check {p['id']} thorough",
                           'evidence_file': f"evidence/{p['id']}.json", 'technique': p['technique'],
                           'level': 'exploration', 'level_note': p['note']})
        else:
            NOT_CLAIMED.append({'property': p['id'], 'reason': 'no check has been built for it yet'})
    m = {'version': 1, 'setup_cmd': './vp setup', 'checks': checks, 'not_applicable': NOT_CLAIMED,
         'notes': 'All checks are generated-input searches (Hypothesis) run by lib/engine.py; see DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
        sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for line in open(os.path.join(ROOT, 'properties.jsonl')):
            jsonschema.validate(json.loads(line), sch)
        print('schemas ok')
    except ImportError:
        pass
    ids = [p['id'] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        for fn in p['files']:
            if not os.path.exists(os.path.join('/repo', fn)):
                print('missing', p['id'], fn)
        n = p['statement'].count('. ') + 1
        if n > 3:
            print('long statement', p['id'], n)


main()
