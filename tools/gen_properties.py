"""Writes /verif/properties.jsonl (kept as a script only so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=["src/sigmaepsilon/math/" + f for f in files],
                               mechanism=[dict(name=n, where="src/sigmaepsilon/math/" + w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "Changing the frame never changes the physical vector or tensor",
     "For every vector and tensor (rank 1, 2, 4 or general) held in any non-singular reference frame, Cartesian or skew, the components reported in a target frame, combined with the target frame's base vectors, give the same physical quantity as the stored components combined with the stored frame. Assigning a new frame to the object, or modifying its frame in place (new axes, rotation, in-place arithmetic on the frame), updates the stored components so that this physical quantity stays the same, for every object attached to that frame and over any sequence of such steps; copies made by copy/deepcopy denote the same quantity.",
     ["inputs", "histories"], "for all components, all pairs of non-singular frames of dimension 1..3 (skew ones included), all ranks, and all sequences of frame changes",
     "The tests use a handful of rotated orthonormal frames and fixed numbers; a law over all skew frames and over histories of frame changes is not reached by them.",
     ["linalg/meta.py", "linalg/frame.py", "linalg/vector.py", "linalg/tensor.py", "linalg/tr.py", "linalg/utils.py"],
     [("component transformation on show/frame change", "linalg/meta.py: TensorLike.frame setter"),
      ("frame mutation propagates to attached objects", "linalg/frame.py: ReferenceFrame.axes setter, inplace_binary"),
      ("vector and tensor transformation", "linalg/vector.py: show; linalg/tensor.py: show, transform_components; linalg/tr.py")],
     ["show", "frame", "array"])
prop("C02", "Frame algebra: transformations compose and invert, duals are biorthogonal",
     "For all non-singular frames, the transformation from a frame to itself is the identity, transformations compose along chains of frames and that of the reversed direction is the inverse; the dual frame is biorthogonal to the frame, the dual of the dual is the frame, and the metric of the dual is the inverse metric. Rotating a frame multiplies its axes by the rotation and preserves its metric; the specialised Cartesian and rectangular frames agree with the general definitions, and operations that return a new frame leave the original one unchanged.",
     ["inputs"], "for all non-singular axes matrices (dimension 1..3, bulk frames included), all rotations",
     "Tests compare a few random orthonormal frames; group laws over all skew frames are not sampled.",
     ["linalg/frame.py", "linalg/utils.py", "linalg/logical.py"],
     [("direction cosine matrices", "linalg/frame.py: ReferenceFrame.dcm, show"), ("dual and metric", "linalg/utils.py: dual_frame, Gram; linalg/frame.py: dual, Gram, metric_tensor, volume"),
      ("rotation", "linalg/frame.py: orient, orient_new, rotate, rotate_new; linalg/utils.py: rotation_matrix, show_frame")])
prop("C03", "Tensor algebra is independent of frames and leaves operands untouched",
     "Sums, differences, negation, multiplication and division by scalars, dot products, contractions, cross products, duals and transposes of vectors and tensors yield the physical quantity obtained by doing the operation on ambient components, whatever frames (skew ones included) the operands are stored in. The out-of-place forms change neither operand nor any operand's frame, and the in-place forms change only the left operand, by exactly the operation their symbol names.",
     ["inputs"], "for all components, scalars and pairs of non-singular frames, for ranks 1, 2 and (where supported) higher",
     "The tests evaluate these operations in orthonormal frames at a few values, where wrong index placement or a wrong frame is invisible.",
     ["linalg/abstract.py", "linalg/utils.py", "linalg/vector.py", "linalg/tensor.py", "linalg/meta.py"],
     [("operators", "linalg/abstract.py: AbstractTensor operators"), ("dot and cross", "linalg/utils.py: dot, cross"), ("transpose and dual", "linalg/meta.py: transpose; linalg/tensor.py, linalg/vector.py: dual")])
prop("C04", "Bulk transformations equal the item-by-item transformation",
     "Transforming a stack of vectors, frames, second-order or fourth-order tensors (any number of items, one transformation for all or one per item, any number of leading data dimensions) gives for every item exactly what the transformation of that single item gives, namely contraction of every tensor index with the transformation matrix. The result does not depend on the order or parallel schedule in which items are processed, and the inputs are not modified.",
     ["inputs", "schedules"], "for every number of items and every value of items and transformation matrices, and every schedule of the parallel loops",
     "Tests run two or three fixed bulk shapes with one value each; agreement per item for all sizes and schedules is out of reach.",
     ["linalg/tr.py", "linalg/utils.py"],
     [("tensor transformation kernels", "linalg/tr.py"), ("vector and frame kernels", "linalg/utils.py: show_vector, show_frame, transpose_axes")])
prop("C05", "Closed-form determinants, inverses and generalised inverses are exact",
     "For every invertible 2x2 or 3x3 matrix the closed-form inverse, adjugate and determinant routines (single, universal-function and bulk forms, and the symbolic one) satisfy A*inv(A) = I, A*adj(A) = det(A)*I and the Leibniz formula for the determinant. For every full-rank rectangular matrix the generalised inverse is the one-sided inverse of the right side with the projector property, and rank-deficient input is rejected with the library's error instead of yielding numbers.",
     ["inputs"], "for all matrices (any number of bulk items), all shapes of full-rank rectangular matrices",
     "Tests check positive definite random samples only; a wrong cofactor sign on non-symmetric input or in one bulk variant can pass.",
     ["linalg/utils.py", "linalg/logical.py"],
     [("closed forms", "linalg/utils.py: det2x2, det3x3, inv2x2, inv2x2u, adj3x3, inv3x3u, inv3x3, inv3x3_bulk, inv3x3_bulk2, inv_sym_3x3"),
      ("generalised inverses", "linalg/utils.py: generalized_left_inverse, generalized_right_inverse, generalized_inverse")])
prop("C06", "The linear solver solves the system or reports singularity",
     "For every square system with one or more right-hand sides and every pattern of prescribed unknowns, each elimination method either raises a linear-algebra error or returns X (and, if unknowns are prescribed, R) with A X = B + R, X equal to the prescribed values at the prescribed unknowns and R zero at the free ones; an exactly singular free block is reported, never answered with numbers. The caller's matrices are left unmodified unless in-place work was requested, and the reduction routine returns an equivalent system.",
     ["inputs"], "for all coefficient matrices, right-hand sides, prescription patterns and values, for both elimination methods",
     "Tests solve two or three fixed 3x3 and 4x4 systems with one prescription pattern.",
     ["linalg/solve.py"],
     [("elimination", "linalg/solve.py: _Jordan, _GaussJordan"), ("back substitution", "linalg/solve.py: backsub"), ("entry points", "linalg/solve.py: linsolve, reduce")])
prop("C07", "Least squares: weighted minimiser, with derivatives that are derivatives",
     "The (weighted) least squares approximant of degree 1 or 2 in 1, 2 or 3 variables is the weighted least-squares minimiser over the full polynomial space of that degree, for any number of points and any number of value columns; in particular data sampled from such a polynomial is reproduced exactly everywhere, together with its first and second derivatives. In the moving version the reported first and second derivatives are the derivatives of the reported value with respect to the evaluation point, given weight functions that report their own derivatives.",
     ["inputs"], "for all point clouds (non-degenerate), data, weights, evaluation points; all number of points; dimension 1,2,3; degree 1,2; order 0,1,2",
     "Tests plot or check a few points of sample functions; they do not check derivative identities or mixed derivatives for all data.",
     ["approx/ls.py", "approx/ls_approx.py", "approx/ls_preproc.py", "approx/ls_poly.py"],
     [("polynomial bases", "approx/ls_poly.py"), ("normal equations", "approx/ls_preproc.py"), ("evaluation and derivative formulae", "approx/ls_approx.py"), ("drivers", "approx/ls.py")])
prop("C08", "Weight functions: support, symmetry, and true derivatives",
     "A cubic-spline weight function is nonnegative, attains its maximum at its core, depends only on the distance from the core in units of the support in each direction, is zero outside the support, and is continuous with continuous first and second derivatives; the gradient and Hessian it reports are the derivatives of its value with respect to the position of its core. The constant weight function is its constant inside the support and zero outside; the singular one is 1/(r^2+eps^2) with matching gradient and Hessian.",
     ["inputs"], "for all cores, support sizes and evaluation points in 1 and 2 dimensions (singular: any dimension up to 3)",
     "Tests only call these functions at a few points and never compare derivatives.",
     ["approx/functions.py"],
     [("weight functions", "approx/functions.py: CubicWeightFunction, ConstantWeightFunction, SingularWeightFunction")])
prop("C09", "Lagrange bases interpolate: Kronecker property, partition of unity, derivatives",
     "For every set of distinct nodes, the generated Lagrange basis polynomials take the value one at their own node and zero at all others, sum to one everywhere, have degree below the number of nodes, and the accompanying first, second and third derivative entries are the derivatives of the basis. The interpolant built from points and values passes through every given pair and reproduces polynomials of degree below the number of nodes; index, symbol and callable options only relabel or convert the same functions.",
     ["inputs"], "for all distinct node positions (2..5 nodes), all values, and all labelling options",
     "Tests check one or two equidistant node sets.",
     ["approx/lagrange.py"], [("basis generation", "approx/lagrange.py: gen_Lagrange_1d"), ("interpolation", "approx/lagrange.py: approx_Lagrange_1d")])
prop("C10", "Sparse and jagged arrays represent the same matrix through every conversion",
     "A compressed-row matrix built from a dense, sparse, jagged or raw description denotes exactly the described matrix: every conversion, row access and column-index access returns the same entries, in compiled code as well. Jagged arrays keep row contents, order and widths through construction from flat data and cuts, lists or matrices, and through flattening, stacking, concatenation and conversion; shapes, sizes, widths and per-row counts always equal the actual row lengths.",
     ["inputs"], "for all numbers of rows, all row lengths (empty rows included where supported), all entries",
     "Tests build two or three small examples; jaggedness patterns are unbounded.",
     ["linalg/sparse/csr.py", "linalg/sparse/jaggedarray.py", "linalg/sparse/utils.py", "utils.py"],
     [("CSR", "linalg/sparse/csr.py: csr_matrix"), ("jagged", "linalg/sparse/jaggedarray.py: JaggedArray, get_data"), ("counting and pointers", "linalg/sparse/utils.py; utils.py: count_cols, count_cols_csr")])
prop("C11", "unique2d: values, counts, inverse and indices reconstruct the input",
     "For every integer matrix or jagged array, the unique values are exactly the distinct entries in increasing order, each count is the number of occurrences, indexing the unique values with the inverse reproduces the input with its original shape or row structure, and the index lists give exactly the positions of every value in row-major order. The set and order of returned items follow the requested options only.",
     ["inputs"], "for all integer matrices of any shape and all jagged integer arrays, all option combinations",
     "Tests check one small array.",
     ["arraysetops.py", "utils.py", "linalg/sparse/jaggedarray.py"], [("unique", "arraysetops.py: unique2d, _unique1d_njit, _unique2d_njit")])
prop("C12", "Rooted level structures are breadth-first layers for every graph",
     "For every finite undirected graph, connected or not, and every root, the level structure terminates and level k contains exactly the nodes at distance k from the root, in increasing order, each node reachable from the root appearing in exactly one level and no level being empty. The pseudo-peripheral search terminates for every graph and returns a root followed-by-set consistent with it: its last entry is a node and the other entries are exactly the nodes at maximal distance from that node, that distance being no smaller than that from node zero.",
     ["inputs"], "for all graphs (any number of nodes and edges, self loops included) and all roots",
     "Tests use a couple of connected grids; disconnected graphs and termination are not reached.",
     ["graph/utils.py", "graph/graph.py", "linalg/sparse/csr.py"], [("BFS layers", "graph/utils.py: rooted_level_structure"), ("pseudo peripheral", "graph/utils.py: pseudo_peripheral_nodes"), ("graph front end", "graph/graph.py: Graph")])
prop("C13", "Genetic operators keep the population valid for every random outcome",
     "Whatever the random draws, populations keep exactly the configured (multiple of four) size and consist of 0/1 genes of the configured length; crossover children take every gene from one of the two parents at the same position and are complementary before mutation, mutation only flips genes, selection returns half the population and contains the elite, and parents handed out in pairs are distinct and used at most once. Decoding maps every genotype into the given ranges, affinely in the binary number of each variable with both range ends attained.",
     ["inputs", "histories"], "for all random outcomes, all gene lengths, dimensions, ranges, probabilities, elitism settings and population sizes",
     "Tests run a handful of seeds; every random outcome is not reachable by sampling.",
     ["optimize/bga.py", "optimize/ga.py"], [("operators", "optimize/bga.py: populate, decode, crossover, mutate, select"), ("elite split and pairing", "optimize/ga.py: divide, random_parents_generator")])
prop("C14", "The reported champion is the best individual ever evaluated",
     "Throughout every run, for every objective, direction (minimise or maximise) and random outcome, the champion's fitness equals the best fitness among all candidates met since the last reset and never gets worse, it equals the objective at its phenotype, and its phenotype decodes its genotype. The optimiser state mirrors the champion and the true numbers of iterations and evaluations; a run never stops before the minimum number of iterations, never exceeds the maximum, ends with a status that matches the reason, and reports an error status when the objective fails.",
     ["histories", "inputs"], "for all objectives, random outcomes, iteration limits, ages, recycle sequences",
     "Tests check that a few seeded runs land near an optimum; history properties are not checked.",
     ["optimize/ga.py", "optimize/state.py", "optimize/bga.py"], [("champion", "optimize/ga.py: _celebrate, best_candidate, evolve"), ("run loop and status", "optimize/ga.py: solve, stopping_criteria, reset, evaluate"), ("state", "optimize/state.py: OptimizerState")])
prop("C15", "A linear program is handed to the solver exactly as stated",
     "For every linear objective and list of linear equalities and inequalities in any declared variable order, the translated arrays describe the same problem: the cost vector gives the objective (negated when maximising), a point satisfies the translated equality and upper-bound rows exactly when it satisfies the stated constraints (strict ones up to the smallest representable margin), and dense and sparse forms agree. Bounds and integrality are passed on unchanged or inferred from the symbols, and the reported optimum value is the stated objective at the reported point.",
     ["inputs"], "for all coefficients, constants, relation kinds, numbers and orders of constraints and variables, both storage modes and directions",
     "Tests solve a few textbook problems.",
     ["optimize/lp.py", "function/function.py", "function/relation.py"], [("translation", "optimize/lp.py: LinearProgrammingProblem._to_scipy"), ("solution", "optimize/lp.py: solve"), ("coefficients", "function/function.py: coefficients, linear_coefficients")])
prop("C16", "Array layout utilities place every entry where their definition says",
     "For arrays of every size, flattening, repeating, tiling, block-diagonal repetition, dimension padding, range mapping, row matching, position lookup, bin centres, clipping, path and line generation return arrays of the documented shape in which every single entry equals its defining formula. They do not modify their arguments (except the clipping done in place) and parallel kernels give the same result under every schedule.",
     ["inputs", "schedules"], "for all sizes, values and repetition counts, all schedules",
     "Tests call these functions once without checking values.",
     ["utils.py", "hist.py", "linalg/utils.py", "logical.py", "decorate.py"],
     [("layout", "utils.py: flatten2d, repeat, repeat1d, tile, tile1d, repeat_diagonal_2d, atleastnd, matrixform, to_range_1d, indices_of_equal_rows, find1d, find2d, bool_to_float, clip1d, minmax"),
      ("paths, norms", "linalg/utils.py: linspace, linspace1d, vpath, norm, norm2d, normalize, normalize2d, permutation_tensor, unit_basis_vector, ATB, ATBA, ATBAw, matmulw"), ("bin centres", "hist.py: histogram, bin_centers")])
prop("C17", "Gauss rules are tensor products exact for the promised polynomial degree",
     "For every number of points per direction in one, two or three dimensions, the quadrature returns the product rule of the one-dimensional Gauss-Legendre rules: every combination of one-dimensional points occurs exactly once with the product weight, positions and weights correspond, weights are positive and sum to the volume of the reference cell. Consequently every polynomial of degree at most 2n-1 in each direction is integrated exactly.",
     ["inputs"], "for all numbers of points per direction and all polynomials of the stated degrees",
     "Tests evaluate a few rules with low point counts.",
     ["numint.py"], [("rules", "numint.py: gauss_points, gauss_points_1d, gauss_points_2d, gauss_points_3d")])
prop("C18", "Relations mean what their text or operator says",
     "A relation given as text, as an expression or as a function with an operator, in any of the accepted forms, denotes left side minus right side compared with zero using exactly the given operator: it holds at a point if and only if the stated comparison holds there. It is created as an equality or inequality according to the operator, malformed or conflicting input is rejected, and its rendered form shows the same operator.",
     ["inputs"], "for all operators, all ways of giving them, all left and right expressions and evaluation points",
     "Tests check a few fixed relations; sides with sums, products and signs on the right-hand side for every operator are not enumerated.",
     ["function/relation.py", "function/utils.py"], [("dispatch", "function/relation.py: Relation.__new__, __init__, Relations.to_opfunc, relate"), ("parsing", "function/utils.py: parse_expression, has_operator")])
prop("C19", "Neighbour queries and the neighbour-based approximation are correct",
     "The k nearest neighbours reported for every query point (the cloud itself if none are given) are k closest source points by Euclidean distance in nondecreasing order, with matching distances on request, never beyond the given maximum distance, and without changing the caller's option dictionaries. The approximation of data at a target point is the mean of the data at its reported neighbours, for scalar, vector or tensor data of any number type, so it reproduces constants and stays within the range of the neighbours' data.",
     ["inputs"], "for all point clouds, data of any trailing shape, k, distance limits, query points",
     "Tests check shapes and one constant field.",
     ["knn.py", "approx/mls.py"], [("KNN", "knn.py: k_nearest_neighbours"), ("approximation", "approx/mls.py: MLSApproximator, _approximate_2d, _approximate_nd")])
prop("C20", "Symbolic functions: value, gradient, Hessian and coefficients agree",
     "For every symbolic function, built from text or from an expression, with any declared variable order, the value, gradient and Hessian it returns at a point are those of the expression with the variables in that order, after any substitution or simplification too. The reported coefficients reassemble the expression, linearity is reported exactly when the expression is of degree at most one in every variable, and out-of-place operations leave the original function unchanged.",
     ["inputs"], "for all expressions, variable orders, substitutions and points",
     "Tests cover a few fixed expressions.",
     ["function/function.py", "function/metafunction.py", "function/symutils.py", "function/functions.py"],
     [("symbolisation", "function/symutils.py: decode, symbolize, substitute, coefficients"), ("function object", "function/function.py: Function"), ("evaluation", "function/metafunction.py: MetaFunction")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
