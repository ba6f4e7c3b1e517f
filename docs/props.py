"""Single source for properties.jsonl and MANIFEST.json (run: python3 docs/gen.py)."""
TECH_AI = ("abstract interpretation of the LLVM IR of the instantiated templates; values are polynomial normal forms over "
           "unknown inputs, compared with the reference formula")
TECH_CP = "constant propagation over the LLVM IR of the table constructors, compared with an exact reference"
NOTE = ("Decided for every real input in exact real arithmetic (rounding ignored) and for the finite set of discrete "
        "configurations listed in the evidence; trusts the clang front end, the IR interpreter and the library summaries.")
P = []


def prop(id, module, title, statement, over, qtext, why, files, mech, tech=TECH_AI, note=NOTE, level="other"):
    P.append(dict(id=id, module=module, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, tech=tech, note=note, level=level))


prop("C01", "basis_functions", "1D shape functions are the Bernstein basis of their order, at every degree",
     "For every polynomial order supported and every evaluation point, the shape functions are the Bernstein polynomials of that order on "
     "[0,1] and their derivative variants are the exact derivatives of those polynomials.  All routes to them (fixed-order, run-time order "
     "dispatch, tensor-product values, gradients, divergences, accumulation forms) agree, add exactly weight times value to the target and "
     "touch nothing outside it.",
     ["inputs", "configurations"], "all real evaluation points, weights and coefficients; every order 0..18 the dispatch offers",
     "The unit test samples a few points and orders; the guarantee is for all points, all orders and all dispatch routes.",
     ["Bembel/src/Spline/Bernstein.hpp", "Bembel/src/Spline/Basis.hpp", "Bembel/src/Spline/ShapeFunctions.hpp"],
     [("Bernstein recursions", "Spline/Bernstein.hpp"), ("order dispatch tables", "Spline/Basis.hpp, ShapeFunctions.hpp")])
prop("C02", "gauss_rules", "Every quadrature rule is the Gauss-Legendre rule of its order on the unit domain",
     "For every available order n the one-dimensional rule has n distinct nodes inside (0,1), positive weights, integrates all polynomials up "
     "to degree 2n-1 exactly (to the precision of the tabulated digits), and the tensor rule on the unit square is its exact product.  "
     "Selecting a rule by index yields the rule of that order, for every index in range.",
     ["configurations"], "every rule order in the compiled tables (thorough: up to 51), all nodes and weights",
     "Tests exercise only the few orders used by a solve and a wrong digit in one rule only shifts accuracy slightly.",
     ["Bembel/src/Quadrature/GaussLegendre.hpp", "Bembel/src/Quadrature/GaussLegendreRule.hpp", "Bembel/src/Quadrature/QuadratureVector.hpp",
      "Bembel/src/Quadrature/TensorProductQuadratureVector.hpp", "Bembel/src/Quadrature/GaussSquare.hpp"],
     [("tables", "Quadrature/GaussLegendre.hpp"), ("indexed containers", "Quadrature/QuadratureVector.hpp, TensorProductQuadratureVector.hpp")], tech=TECH_CP,
     note="Constants propagated from the source; exactness relative to 60-digit reference rules with tolerance 1e-13.")
prop("C03", "patch_parametrization", "Patch evaluation, Jacobian and normal describe one rational spline surface",
     "A patch built from homogeneous control points and two knot vectors evaluates, at every reference point, to the rational B-spline "
     "surface they define; its Jacobian is the exact derivative of that surface with respect to the reference coordinates, its normal is the "
     "cross product of the Jacobian columns, and the combined surface-point update returns exactly these quantities together with the given "
     "weight and local coordinates.  Splitting a patch at its interior knots yields, in order, one patch per knot span, each of which "
     "parametrizes exactly its piece of the original surface.",
     ["inputs", "configurations"], "all control points (all four homogeneous coordinates), all reference points; a table of 12 degree and knot shapes",
     "Tests evaluate a fixed handful of analytically known patches, none with interior knots, unequal degrees or varying weights at once.",
     ["Bembel/src/Geometry/Patch.hpp", "Bembel/src/Spline/Localize.hpp", "Bembel/src/Spline/Bezierextraction.hpp", "Bembel/src/Spline/Knots.hpp",
      "Bembel/src/Geometry/SurfacePoint.hpp"],
     [("Patch::init_Patch, eval, evalJacobian, updateSurfacePoint", "Geometry/Patch.hpp"), ("PatchShredder", "Geometry/Patch.hpp")])
prop("C04", "dense_integrand", "Boundary integrands are exactly kernel times test and trial functions",
     "For every boundary integral operator (Laplace and Helmholtz single, double, adjoint double layer and hypersingular, Maxwell single "
     "layer) and every pair of distinct surface points, the value accumulated for a pair of test and trial functions is the operator's "
     "kernel, with its normals, surface measures, weights, surface curls or divergences, times those functions.  It is added to the given "
     "matrix, and it is exact for every wavenumber, real or complex.",
     ["inputs", "configurations"], "all pairs of distinct surface points with regular Jacobians, all wavenumbers; orders P=0..2 (thorough more)",
     "End-to-end tests see only solution errors on one geometry and wavenumber with tolerances that hide wrong factors at other inputs.",
     ["Bembel/src/Laplace", "Bembel/src/Helmholtz", "Bembel/src/Maxwell", "Bembel/src/AnsatzSpace/SuperSpace.hpp"],
     [("evaluateIntegrand_impl", "Laplace/*.hpp, Helmholtz/*.hpp, Maxwell/*.hpp"), ("basisInteraction", "AnsatzSpace/SuperSpace.hpp")])
prop("C05", "fmm_factors", "Compressed far-field factors reproduce the kernel and shape-function moments",
     "For every operator the far-field kernel matrix at any two surface points, combined with the moment matrices, represents the same bilinear "
     "form as the dense integrand: moments are the exact integrals of each interpolation polynomial times shape function (or derivative) on "
     "each element of a cluster, in hierarchical element order.  Interpolation polynomials are the Lagrange basis of the Chebyshev points, "
     "transfer matrices re-expand them exactly from a cluster to its four sons, and the downward sweep is the transpose of the upward sweep "
     "for every vector, real or complex, and every depth.",
     ["inputs", "configurations"], "all surface points, wavenumbers and coefficient vectors; degrees 0-2 (thorough 0-4), 1-5 interpolation points, depth 0-2",
     "The unit tests compare a few sweeps numerically for one setting; a wrong factor in one operator's moments or kernel block only degrades accuracy.",
     ["Bembel/src/H2Matrix/H2Multipole.hpp", "Bembel/src/Laplace", "Bembel/src/Helmholtz", "Bembel/src/Maxwell"],
     [("computeTransferMatrices, moment2DComputer, forward/backwardTransformation", "H2Matrix/H2Multipole.hpp"),
      ("evaluateFMMInterpolation_impl, Moment2D specialisations", "operator headers")])
prop("C06", "bspline_evaluators", "B-spline evaluators, knot utilities and Bezier extraction agree with Cox-de Boor",
     "Every spline evaluator (curves, vectors of curves, tensor-product surfaces and all their derivatives) returns, for arbitrary "
     "coefficients and at every point of the knot range including the knots, the linear combination of the Cox-de Boor basis functions of "
     "that knot vector or its derivative.  Knot vectors are built, reduced to unique knots, searched and mapped to local coordinates "
     "consistently; local interpolation reproduces the given values at its points.  The Bezier extraction matrix expresses every B-spline "
     "exactly through the Bernstein polynomials of each element.",
     ["inputs", "configurations"], "all coefficients and evaluation points; ten knot vectors of order 1-5 with simple, repeated and graded knots",
     "The unit tests sample random points on a few uniform knot vectors; wrong spans at knots or unequal directions are not exercised.",
     ["Bembel/src/Spline/DeBoor.hpp", "Bembel/src/Spline/DeBoorTP.hpp", "Bembel/src/Spline/Knots.hpp", "Bembel/src/Spline/Localize.hpp",
      "Bembel/src/Spline/Bezierextraction.hpp", "Bembel/src/Spline/Unroll.hpp"],
     [("DeBoor, DeBoorDer, DeBoorTP, DeBoorTPDer", "Spline/DeBoor.hpp, DeBoorTP.hpp"), ("MakeProjection", "Spline/Bezierextraction.hpp"),
      ("knot utilities, GetCoefficients", "Spline/Knots.hpp, Localize.hpp")])
prop("C07", "super_space", "SuperSpace maps and shape-function products are those of its elements and degree",
     "For every element, local point and weight, map2surface yields the patch parametrisation and its tangents at the element's position "
     "(llc + h times the local point) together with that weight and local point.  For every degree and scalar type, each basis and interaction "
     "routine (values, derivatives, surface curls and gradients, vector and divergence products, with and without accumulation) adds exactly "
     "weight times the product of the two shape functions at the given points to each entry.  Copies, moves, assignments and re-initialisations "
     "of a SuperSpace behave like the space they came from, also after that is destroyed.",
     ["inputs", "configurations", "histories"], "all local points, surface points, weights, previous matrix contents; degrees 0-3 (thorough 0-6), seven construction histories",
     "Unit tests check few routines at sample points; a wrong block, index order or stale member of a copied space is not sampled.",
     ["Bembel/src/AnsatzSpace/SuperSpace.hpp", "Bembel/src/ClusterTree/ElementTreeNode.hpp", "Bembel/src/Spline/Basis.hpp"],
     [("map2surface, interactions, copy/move", "AnsatzSpace/SuperSpace.hpp")])
prop("C08", "element_tree", "The element tree is a consistent, oriented quad refinement of the patches",
     "For every way patches can be glued along edges, and every refinement level, the element tree contains exactly the four equally "
     "sized sons of each element in counter-clockwise order with correct ids, levels, reference positions and corner vertices; vertices that "
     "coincide are one vertex, neighbour links are mutual, complete and refer to the shared edge, and the per-level element lists, leaf "
     "list and reordering vector enumerate the elements exactly once in hierarchical order.  Enclosing balls contain their sons, patch "
     "topology lists each shared or boundary edge once with correct local edge numbers, and inconsistent orientation is rejected.",
     ["configurations", "inputs"], "a table of topologies (all 32 gluings of two squares, boxes, rings, lenses, isolated patches), levels 0-3 (thorough more)",
     "Tests refine a handful of fixed geometries; wrong neighbours or vertex merges appear only for particular rotations of the patches.",
     ["Bembel/src/ClusterTree/ElementTree.hpp", "Bembel/src/ClusterTree/ElementTreeNode.hpp", "Bembel/src/ClusterTree/ClusterTree.hpp"],
     [("ElementTree::init_ElementTree, refine, computeElementEnclosings, patchTopologyInfo", "ClusterTree/ElementTree.hpp"),
      ("ElementTreeNode", "ClusterTree/ElementTreeNode.hpp"), ("checkOrientation, compute_children", "ClusterTree/ClusterTree.hpp")],
     tech="abstract interpretation of the LLVM IR: constant propagation of the whole tree construction per topology, algebraic normal forms for balls and maps, compared with an independently built reference refinement",
     note="Topologies are a finite table, each with exact vertex identification; coordinates with rounding noise are outside.")
prop("C09", "geometry_files", "Geometry files are read and written faithfully",
     "A geometry file of either format is read as exactly the patches it describes, in order, with their degrees, knots, weights and control points, whatever its "
     "line ends, spacing, number widths or path name, and every patch is split into Bezier pieces where the geometry is loaded.  Written files obey the record "
     "layout of their format, carry the promised digits and are read back as the same surfaces.  Copied, assigned and moved geometries have the surfaces of their source and do not change it.",
     ["inputs", "configurations", "histories"], "all coordinates and weights with number texts of 1-32 characters; layouts, path names, degrees, interior knots; both formats",
     "Tests read two files and compare one export with its import; other widths, line ends, asymmetric degrees, record lengths and names go untested.",
     ["Bembel/src/Geometry/Geometry.hpp", "Bembel/src/Geometry/GeometryIO.hpp", "Bembel/src/Geometry/GeometryIGS.hpp"],
     [("LoadGeometryFileDAT, WriteDATFile", "Geometry/GeometryIO.hpp"), ("LoadGeometryFileIGS, writeIGSFile", "Geometry/GeometryIGS.hpp"), ("Geometry", "Geometry/Geometry.hpp")],
     tech="abstract interpretation of the LLVM IR with texts of abstract characters (a number is a token of unknown value) and polynomial normal forms",
     note="Trusted: clang 18, the IR interpreter, and witness/shim as semantics of the stream classes. Bounds: table of layouts and number widths; real arithmetic up to the requested digits.")
prop("C10", "ansatz_space", "Spline spaces are glued into exactly the conforming global space",
     "For every degree, level and knot repetition, each patch basis function is one tensor-product B-spline written in element Bernstein "
     "coefficients, each exactly once.  Gluing identifies degrees of freedom across shared edges exactly as continuity demands - equal traces "
     "for continuous spaces, opposite outward normal fluxes for divergence-conforming spaces, nothing for discontinuous ones - for every "
     "relative rotation of the neighbouring patches and at every vertex.  The transformation matrix of the space is the product of both, "
     "so its columns are linearly independent and number_of_dofs equals the dimension of that space.",
     ["configurations"], "a table of topologies with all relative edge orientations; degrees 0-4, levels 0-3, knot repetitions up to the degree",
     "Tests build spaces on two geometries; a wrong sign or index order shows only for particular edge pairings, degrees and repetitions.",
     ["Bembel/src/AnsatzSpace/Glue.hpp", "Bembel/src/AnsatzSpace/Projector.hpp", "Bembel/src/AnsatzSpace/AnsatzSpace.hpp",
      "Bembel/src/Spline/Bezierextraction.hpp"],
     [("Glue::makeDofIdentificationList, assembleGlueMatrix", "AnsatzSpace/Glue.hpp"), ("Projector::makeProjection", "AnsatzSpace/Projector.hpp"),
      ("AnsatzSpace::init_AnsatzSpace", "AnsatzSpace/AnsatzSpace.hpp")],
     tech="abstract interpretation of the LLVM IR: constant propagation of Projector/Glue/AnsatzSpace per configuration, compared with an exact rational reference (B-spline bases, transitive closure of interface conditions)")
prop("C11", "function_evaluator", "Discrete functions evaluate to the combination of their mapped shape functions",
     "For every coefficient vector, evaluating a discrete function on an element gives the sum of its transformed coefficients times the "
     "element's shape functions (scaled by 1/h; mapped by the tangents for vector-valued spaces), and its divergence is the matching "
     "combination of derivatives.  Evaluation at a reference point of a patch uses an element containing that point, including points on element "
     "edges and corners.  This holds for evaluators built, copied, moved, assigned or re-initialised in any way.",
     ["inputs", "configurations", "histories"], "all coefficient vectors and surface points; three space types, degrees 0-2 (thorough 0-4), levels 0-2, ten object histories",
     "Unit tests sample few random points and never copy or re-use evaluators; element lookup errors show only for some cells.",
     ["Bembel/src/AnsatzSpace/FunctionEvaluator.hpp", "Bembel/src/AnsatzSpace/FunctionEvaluatorEval.hpp", "Bembel/src/AnsatzSpace/AnsatzSpace.hpp",
      "Bembel/src/ClusterTree/ElementTree.hpp"],
     [("evaluate, evaluateDiv, evaluateOnPatch, set_function, operator=", "AnsatzSpace/FunctionEvaluator.hpp"), ("FunctionEvaluatorEval", "AnsatzSpace/FunctionEvaluatorEval.hpp"),
      ("computeReorderingVector, mapToReferenceElement", "ClusterTree/ElementTree.hpp, ElementTreeNode.hpp")])
prop("C12", "duffy", "Singular quadrature rules are exact, regularising changes of variables",
     "For every ordered pair of elements, the quadrature points and weights used for their interaction integrate every polynomial of the four local "
     "coordinates over the pair exactly once, whether the elements coincide, share an edge, share a vertex (in any of the relative rotations) or "
     "are apart.  Where the elements touch, the weight vanishes to the order needed to cancel the kernel singularity; points lie on the "
     "right element and carry its surface map and tangents.  The quadrature degree follows the "
     "documented dependence on polynomial degree, operator order, level and distance.",
     ["inputs", "configurations"], "all quadrature nodes and weights; all 16 edge and 16 corner pairings, coincident and distant pairs, several levels and operator orders",
     "Solution tests see one rotation pattern per geometry; a wrong rotation or missing term only shows for a particular pairing of edges.",
     ["Bembel/src/DuffyTrick", "Bembel/src/LinearOperator/LinearOperatorBase.hpp"],
     [("evaluateBilinearForm, integrate0-4, compareElements, tau", "DuffyTrick/*.hpp"), ("get_FarfieldQuadratureDegree", "LinearOperator/LinearOperatorBase.hpp")],
     tech="abstract interpretation of the LLVM IR: quadrature points as polynomials of unknown nodes; exactness, cancellation order and placement decided on the polynomials")
prop("C13", "h2matrix", "Compressed operators partition the matrix and multiply like the operator",
     "For every geometry, level and admissibility parameter, the leaves of the block cluster tree cover each pair of elements exactly once, are "
     "compressed exactly when the clusters are admissible, and dense only on the finest cluster level.  For every near-field and every far-field "
     "kernel that the interpolation reproduces, every product with the compressed matrix (vectors, several columns, accumulated, scaled, sums with "
     "compressed, dense and sparse matrices, get_dense) equals the uncompressed operator applied to the vector.",
     ["inputs", "configurations", "histories"], "unknown near-field values, far-field coefficients and vectors; five geometries, levels 0-3, degrees 0-2, 1-9 interpolation points",
     "Tests compare one kernel on a sphere with loose tolerance; component mix-ups, stale accumulators or a lost block at other levels go unseen.",
     ["Bembel/src/H2Matrix"],
     [("BlockClusterTree", "H2Matrix/BlockClusterTree.hpp"), ("init_H2Matrix, get_dense", "H2Matrix/H2Matrix.hpp"),
      ("H2_time_dense_product_impl, generic_product_impl", "H2Matrix/EigenHelper/H2DenseProduct.hpp")])
prop("C14", "assembly", "Assembly puts each element contribution in its place exactly once",
     "For every user-defined operator, local operator, linear form and potential, the discrete object equals the sum over all element pairs "
     "(elements, evaluation points) of that element's quadrature contribution, placed at the element's own shape functions and vector components, and "
     "multiplied with the transformation matrix of the space from both (one) sides.  Quadrature degrees that are set explicitly are at least that exact; "
     "results do not depend on earlier computations with the same object or on the lifetime of the space it was built from.",
     ["inputs", "configurations", "histories"], "all kernels piecewise constant on cells with unknown values; three space types, degrees 0-2, levels 0-2, four construction histories",
     "Regression values for two kernels hide transposed or misplaced blocks when kernels are symmetric and geometry is symmetric.",
     ["Bembel/src/LinearOperator/DiscreteOperator.hpp", "Bembel/src/LinearOperator/DiscreteLocalOperator.hpp",
      "Bembel/src/LinearForm/DiscreteLinearForm.hpp", "Bembel/src/Potential/DiscretePotential.hpp"],
     [("DiscreteOperatorComputer::compute", "LinearOperator/DiscreteOperator.hpp, DiscreteLocalOperator.hpp"),
      ("DiscreteLinearForm::compute", "LinearForm/DiscreteLinearForm.hpp"), ("DiscretePotential::evaluate", "Potential/DiscretePotential.hpp")])
prop("C15", "potentials", "Potential integrands are kernel times density times surface measure",
     "For every evaluation point off the surface and every surface point, each potential (Laplace and Helmholtz single and double layer, gradient of "
     "the Laplace single layer, Maxwell single layer) contributes exactly weight times surface measure times the kernel (its gradient, normal derivative) "
     "times the density at that surface point.  This holds for every wavenumber, real or complex, every density, real or complex, and does not "
     "depend on earlier evaluations or an earlier wavenumber of the same object.",
     ["inputs", "configurations", "histories"], "all pairs of points, wavenumbers and coefficient vectors; real, complex and vector densities",
     "Tests compare one potential per operator with a manufactured solution on a sphere, one wavenumber and one density.",
     ["Bembel/src/Laplace", "Bembel/src/Helmholtz", "Bembel/src/Maxwell", "Bembel/src/Potential/Potential.hpp"],
     [("evaluateIntegrand_impl of the potentials", "Laplace/*Potential*.hpp, Helmholtz/*Potential.hpp, Maxwell/*Potential.hpp")])
prop("C16", "traces", "Traces and local operators are the traced data times the test functions",
     "For every user function, real or complex, and every surface point, each trace (Dirichlet, Neumann, tangential, rotated tangential) adds exactly "
     "weight times surface measure times the trace of the function at that point times each test function.  Mass matrices and the Laplace-Beltrami operator "
     "add the products of test and trial functions, respectively of their surface gradients, in the same way for every metric.",
     ["inputs", "configurations", "histories"], "all functions (uninterpreted), surface points and tangents; degrees 0-3, real and complex",
     "Tests use polynomial data and one geometry, never a complex tangential trace, and check only final errors.",
     ["Bembel/src/LinearForm", "Bembel/src/Identity", "Bembel/src/LaplaceBeltrami"],
     [("evaluateIntegrand_impl of the traces", "LinearForm/*Trace.hpp"), ("local operators", "Identity/*.hpp, LaplaceBeltrami/*.hpp")])
prop("C17", "homogenised", "Homogenised kernel is the solid harmonics series of its coefficients",
     "For every point and every coefficient vector the spherical and solid harmonics routines return the real harmonics series, and their derivative "
     "routines its exact gradient, up to and including the stated degree.  The kernel's coefficients make the corrected kernel fulfil the periodic "
     "boundary conditions in the least squares sense with zero mean, and kernel, operator and potential evaluate exactly that kernel.",
     ["inputs", "configurations"], "all points and coefficients; degrees 0..5 (thorough more), real and imaginary parts",
     "Tests compare a few points of the kernel with a loose tolerance, so a missing degree or sign in one order goes unseen.",
     ["Bembel/src/HomogenisedLaplace", "Bembel/src/util/Sphericals.hpp"],
     [("harmonics series", "util/Sphericals.hpp"), ("coefficients", "HomogenisedLaplace/Coefficients.hpp"),
      ("evaluateKernel", "HomogenisedLaplace/SingleLayerOperator.hpp, SingleLayerPotential.hpp")])
prop("C18", "schedules", "Parallel regions are race-free and their result schedule-independent",
     "For every number of threads, interleaving and distribution of the work, assembling dense and compressed operators, multiplying with compressed "
     "matrices and evaluating potentials is free of data races and yields the value of the sequential definition.  Evaluating one operator, local "
     "operator, trace, potential, function or space from several threads at once modifies nothing but the caller's own results.",
     ["schedules", "inputs"], "all interleavings of the parallel regions (dense, H2, product, potential), unknown kernels and data; 24 evaluation routines",
     "A race or an ownership slip shows in few interleavings and seldom under test load; tests run one thread count and compare loosely.",
     ["Bembel/src/LinearOperator/DiscreteOperator.hpp", "Bembel/src/H2Matrix", "Bembel/src/Potential/DiscretePotential.hpp", "Bembel/src/AnsatzSpace",
      "Bembel/src/Geometry/Patch.hpp"],
     [("omp task assembly", "LinearOperator/DiscreteOperator.hpp, H2Matrix/H2Matrix.hpp"), ("omp single nowait / critical accumulation",
      "H2Matrix/EigenHelper/H2DenseProduct.hpp, Potential/DiscretePotential.hpp"), ("const evaluation", "evaluateIntegrand_impl, FunctionEvaluator, Patch")],
     tech="effect analysis: abstract interpretation of the OpenMP LLVM IR per abstract thread with footprints, locksets and barrier phases; disjointness of concurrent effects",
     note="Trusted: clang 18 OpenMP lowering and libomp semantics of the modelled entry points, the IR interpreter. Bounds: 2 and 3 threads, small meshes; real arithmetic.")
prop("C19", "interface", "Headers compose, instantiate, link and reject misuse",
     "Every module header compiles on its own and in any order with the others, and any number of translation units of a program may include any of "
     "them without duplicate definitions.  Every public class template and member can be instantiated for every operator, scalar and vector dimension it is documented "
     "for, and calls reach the implementation of the derived class.  Mixing incompatible spaces, operators, scalars, potentials or accessing internals does not compile.",
     ["configurations"], "all module headers and include orders; all public templates times the operators and scalars; a table of misuse programs with valid twins",
     "Tests are single translation units that instantiate a handful of template arguments; an uninstantiated member or non-inline function is invisible to them.",
     ["Bembel"],
     [("module headers", "Bembel/*"), ("public templates", "Bembel/src/**"), ("CRTP bases", "LinearOperatorBase, LocalOperatorBase, LinearFormBase, PotentialBase")],
     tech="compiler front-end type checking: include-order witnesses, explicit instantiation tables, compile-fail witnesses with valid twins, IR linkage scan",
     note="Trusted: clang 18 and g++ 13 front ends (-std=gnu++11 as in the build). Bounds: instantiation table; include orders alone, doubled, forward, backward (thorough: pairwise).")
prop("C20", "exports", "Exported files carry exactly the exported data",
     "A VTK file of a surface, grid or point cloud is well-formed and lists every point, cell, normal, patch number and data set, each value being that of its function at its "
     "own cell midpoint or point, real and imaginary part, with at least six significant digits.  Matrices written as text or MATLAB statements define exactly that matrix, replacing or "
     "extending the file as asked; binary files of any size read back as the same matrix.  Logs keep one column per value, and the stopwatch reports exactly the elapsed intervals.",
     ["inputs", "configurations", "histories"], "all data values (unknown), number widths, call sequences; table of meshes, matrix shapes, storage orders and modes",
     "No test looks at an exported file; examples write them and ignore their content.",
     ["Bembel/src/IO"],
     [("writeToFile, addDataSet", "IO/VTKSurfaceExport.hpp, VTKDomainExport.hpp, VTKPointExport.hpp"), ("print2ascii, print2m, print2bin, bin2Mat", "IO/print2file.hpp"),
      ("Logger, Stopwatch", "IO/Logger.hpp, IO/Stopwatch.hpp")],
     tech="abstract interpretation of the LLVM IR with texts of abstract characters (a number is a token of unknown value) and polynomial normal forms; backward slice for byte counts",
     note="Trusted: clang 18, the IR interpreter, and witness/shim as semantics of the stream classes. Bounds: table of meshes, shapes and call sequences; real arithmetic up to the written digits.")
prop("C21", "copies", "Copies, moves and assignments carry the complete state of an object",
     "Copying, moving, assigning or swapping a geometry, patch, element tree node, block cluster tree, tree leaf or generic matrix, or storing it in a growing container, "
     "gives an object that behaves exactly as the original did, whatever state it was in, including default-constructed.  A copy is independent: changing or re-initialising "
     "it, or destroying the original, does not affect the other; matrices, leaves and leaf lists refer to the object they belong to.",
     ["histories", "inputs"], "all stored values (unknown); 8 routes times the kinds and shapes of objects, with changes of either side afterwards",
     "Tests copy few classes, never compare all members, and never use the source, a default-constructed object or a re-initialised copy afterwards.",
     ["Bembel/src/Geometry/Geometry.hpp", "Bembel/src/Geometry/Patch.hpp", "Bembel/src/ClusterTree/ElementTreeNode.hpp", "Bembel/src/H2Matrix/BlockClusterTree.hpp",
      "Bembel/src/H2Matrix/TreeLeaf.hpp", "Bembel/src/util/GenericMatrix.hpp"],
     [("special members", "Geometry, Patch, ElementTreeNode, BlockClusterTree, TreeLeaf, GenericMatrix"), ("updateLeafPointers, shared parameters", "H2Matrix/BlockClusterTree.hpp")],
     note="Trusted: clang 18, the IR interpreter and its model of the heap. Bounds: table of shapes, meshes of up to 3 patches; all stored values unknown.")
prop("C22", "widths", "Sizes, indices and reals are never narrowed below int and double",
     "No computation of the library passes a size, count, index or identifier through an integer type of fewer than 32 bits, and no real or complex number through a "
     "floating point type narrower than double.  So meshes, spaces and point sets may grow, and values keep full precision, up to the limits of int and double themselves.",
     ["inputs", "configurations"], "every function of the library: all non-template functions, all templates instantiated for every operator, form, potential and scalar",
     "A narrowed index or value is invisible in small tests with loose tolerances; it corrupts results only for large problems or small differences.",
     ["Bembel/src"], [("all functions", "Bembel/src/**")],
     tech="type-width analysis of the unoptimised LLVM IR of every instantiated library function: truncations below 32 bits and single precision operations, by source line",
     note="Trusted: clang 18 front end. Every function emitted (-femit-all-decls plus explicit instantiations); conversions of character data are exempt.")
prop("C23", "lifetime", "Objects own their memory: released once, never read outside or after",
     "Every public object can be constructed, copied, moved, assigned, stored in containers, re-initialised and destroyed in any order relative to the objects it was made from.  "
     "Along every such history each block of memory the library allocates is released exactly once by the matching routine, none is left allocated, and no access lies outside a live block "
     "or reads a value that was never written.",
     ["histories", "inputs", "configurations"], "every history of construction, copies, moves, re-initialisation, use and destruction of geometries, patches, meshes, spaces, evaluators, forms, potentials, operators, compressed matrices, exporters",
     "Leaks, reads of freed or uninitialised memory and double releases do not fail a test whose process ends normally.",
     ["Bembel/src"], [("ownership through shared_ptr and values", "AnsatzSpace.hpp, BlockClusterTree.hpp, TreeLeaf.hpp, DiscretePotential.hpp"), ("raw element pointers", "ClusterTree/ElementTree.hpp")],
     tech="abstract interpretation of the library's LLVM IR with an abstract heap (allocation sites, liveness, initialisation, bounds) and a reachability pass at the end of each history",
     note="Trusted: clang 18 front end, the interpreter's heap model. The histories enumerate the public operations of each class, not their unbounded compositions; the values are unknown reals. Quadrature loops are empty here (their accesses are decided by C04, C05, C12, C14-C16).")
prop("C24", "assertions", "No internal consistency assertion fails in valid use",
     "In valid use no assertion fails, neither the library's own (pre- and postconditions, matched files, unreachable cases) nor those of Eigen on which its matrix code relies "
     "(operands of compatible size, indices in range, no aliased transposition, storage large enough).  A debug build therefore accepts what a release build computes.",
     ["inputs", "configurations", "histories"], "every public operation with valid arguments, on every class of geometry, space, operator, form, potential and export",
     "Assertions are compiled out of release builds and of the tests' build type; the configurations that trip them are those nobody runs.",
     ["Bembel/src"], [("library assertions", "Glue.hpp, Projector.hpp, Spline/*, DuffyTrick/evaluateBilinearForm.hpp"), ("Eigen assertions", "all matrix code")],
     tech="abstract interpretation of the LLVM IR compiled with assertions of library and Eigen enabled: reachability of every assertion failure",
     note="Trusted: clang 18 front end. Assertions on unknown real values are not decided. Configurations: those of the lifetime histories and a selection of the other checks (all of them in the thorough tier).")
NA = [
    dict(id="C25", title="Solutions of the boundary integral equations converge at the predicted order",
         statement="For smooth data on every geometry the Galerkin solution and the potential evaluated from it converge under refinement with the order that theory predicts for "
                   "the degree of the space, until rounding or the accuracy of quadrature and compression is reached.",
         over=["inputs", "configurations"], qtext="all geometries, data, operators, degrees and levels",
         why="Tests check the order for one manufactured solution on one or two geometries.", files=["Bembel/src"], mech=[("whole solution process", "examples, DiscreteOperator, DiscreteLinearForm, DiscretePotential")],
         reason="A statement on the magnitude of floating-point errors of transcendental singular integrals and of linear solves as the mesh is refined: it quantifies over run-time values which no sound static "
                "argument in reach bounds. Its algebraic ingredients (kernels, rules, spaces, assembly) are decided by C01-C17."),
    dict(id="C26", title="Compression error decays exponentially in the number of interpolation points",
         statement="For every admissible pair of clusters the difference between the compressed and the exact block is bounded by a constant times rho^(number of points) with rho < 1 depending only on "
                   "the admissibility parameter, and compressed operators need almost linear memory and time.",
         over=["inputs", "configurations"], qtext="all geometries, wavenumbers, levels and admissibility parameters",
         why="Tests compare one matrix with a fixed tolerance.", files=["Bembel/src/H2Matrix"], mech=[("interpolation of the kernel", "H2Matrix/H2Multipole.hpp"), ("admissibility", "H2Matrix/BlockClusterTree.hpp")],
         reason="Analytic estimate of the interpolation error of a transcendental kernel and of resource use; not derivable from the source by dataflow or algebra. That the factors are the interpolation of the "
                "kernel, and that admissibility is the distance criterion, is decided by C05 and C13."),
]
