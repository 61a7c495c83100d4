#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays valid JSON lines)."""
import json, os
L = "src/lib/"
def P(id, title, st, over, qt, why, files, mech, obs, state=None):
    d = dict(id=id, title=title, statement=st,
             quantifier=dict(over=over, text=qt), why_tests_cant=why,
             anchors=dict(files=[f if f.startswith("src") else L + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=obs, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    assert len(title) <= 80, title
    return d
S = "matrix/SparseMatrix.inl"
props = [
P("C01", "A sparse matrix always reads as the plain matrix its history describes",
  "After any sequence of constructions, copies, moves, swaps, set / linear_set writes (a zero value removes the entry), non-zero writes through iterators, erasures and in-place arithmetic (scaling, also by zero, and element-wise +=, -=, *=), a sparse matrix reads (at, linear_at, both forms of has) exactly like an ordinary two-dimensional array that received the same operations. filled_count, row_filled_count, column_filled_count, empty, has_zero, rows, columns and size agree with that array, also when rows or columns hold no entry at all. Copies are independent objects: changing one never changes another.",
  ["histories", "inputs"], "every history of writes, removals, copies, moves and swaps on matrices of every shape",
  "The tests build a handful of fixed 3x4 / 4x4 matrices and make at most a few writes; the compressed-row bookkeeping (row offsets shared by all later rows) breaks only for particular orders of inserts and removals around empty rows, first/last row and first/last column.",
  [S, "matrix/SparseMatrix.h"], [("internal_at / set_at / remove_at / row_entry_count", S), ("erase(iterator), set(iterator)", S), ("swap, copy", S)],
  ["at", "has", "linear_at", "filled_count", "row_filled_count", "column_filled_count", "empty", "has_zero"],
  [("value list, column list, row offsets", "compressed row storage"), ("shared empty value", "returned for absent entries")]),
P("C02", "Sparse iteration visits exactly the stored entries in order, also while erasing",
  "On any sparse matrix the standard iterators (const and non-const) visit every non-zero entry exactly once in row-major order, row iterators exactly the entries of that row by ascending column, and column iterators exactly the entries of that column by ascending row, always reporting the right row, column and value; an empty row, column or matrix gives an empty range. erase(it), and set(it, 0), return an iterator to the entry that followed the removed one in row-major order (or the end), so a sweep that erases some entries visits every entry once; set(it, nonzero) returns an iterator to the changed entry.",
  ["histories", "inputs"], "every sparsity pattern, every iterator kind, every erase/keep decision along a sweep",
  "The tests iterate over two fixed patterns; the failing situations need an empty row next to the erased or visited entry.",
  [S], [("SparseMatrixIterator / RowIterator / ColumnIterator ++", S), ("begin / row_begin / column_begin", S), ("erase(iterator)", S)],
  ["begin/end", "row_begin/row_end", "column_begin/column_end", "erase", "set(iterator)"]),
P("C03", "Sparse element-wise arithmetic and comparison equal the dense definition",
  "For sparse matrices of equal shape, +, -, unary -, element-wise *, multiplication by a scalar, and their compound assignments give in every entry what the same operation gives on plain arrays (also when an operand is the object itself), results that are zero are not stored, and operands other than the target keep their value. == holds exactly when shape and all entries agree, and != is its negation. Combining matrices of different shape throws MatrixSizeMismatchException and changes nothing.",
  ["inputs", "histories"], "every pair of sparsity patterns and values, aliased operands, and every pair of shapes",
  "The tests combine one pair of fixed matrices per operator; pattern interactions (cancellation, disjoint rows, empty rows) and aliasing are never sampled.",
  [S], [("operator += -= *= == and free operators", S)], ["+=", "-=", "*=", "+", "-", "*", "==", "!="]),
P("C04", "Dense and fixed matrices are faithful arrays with element-wise arithmetic",
  "Dense and fixed-size matrices read back exactly what was written at every index (set, linear_set, iterator writes, initializer lists with short rows filled by zero); standard, row and column iteration visit each entry once in order with the right indices; copies, assignment, moves and swap behave as for plain arrays. +, -, unary -, element-wise *, scalar *, and their compound forms act entry by entry (also with the object itself as operand) and ==, != compare all entries. Element-wise operations and comparisons of dense matrices of different shape throw MatrixSizeMismatchException and change nothing.",
  ["inputs", "histories"], "every shape, every history of writes, every operand pair",
  "The tests use a few square or 3x4 matrices; index mix-ups between rows and columns, in particular for non-square shapes with equal element count, are not sampled.",
  ["matrix/BaseMatrix.inl", "matrix/DenseMatrix.inl", "matrix/FixedMatrix.inl"],
  [("MatrixIterator family, at/set", "matrix/BaseMatrix.inl"), ("operators", "matrix/DenseMatrix.inl"), ("operators", "matrix/FixedMatrix.inl")],
  ["at", "set", "iterators", "operators"]),
P("C05", "Transpose, conjugate, trace and products follow their algebraic definition",
  "For sparse, dense and fixed matrices of every shape, with real or complex entries: transpose exchanges indices, conjugate conjugates every entry, adjugate is the conjugate transpose, trace sums the diagonal of the leading square, mul is the matrix product, mul(vector) is M v and mul_left(vector) is the row vector v M. The results have the right shape and the three storage kinds agree with each other. Dynamic operands of incompatible size throw MatrixMulMismatchException.",
  ["inputs"], "every shape combination, sparsity pattern and real/complex entries",
  "The tests multiply fixed small square matrices with real entries; non-square products, empty rows, imaginary parts and left products are sampled once or never.",
  [S, "matrix/DenseMatrix.inl", "matrix/FixedMatrix.inl", "matrix/BaseMatrix.inl", "Types.h"],
  [("mul / mul_left / transpose / conjugate / adjugate", S), ("same", "matrix/DenseMatrix.inl"), ("same", "matrix/FixedMatrix.inl"), ("trace", "matrix/BaseMatrix.inl")],
  ["mul", "mul_left", "transpose", "conjugate", "adjugate", "trace"]),
P("C06", "Aggregates (sum, max, min, avg, zero/NaN/inf tests) describe all entries",
  "For vectors and for sparse, dense and fixed matrices of any content, sum, avg, max and min are the sum, mean, largest and smallest over all entries, where the unstored entries of a sparse matrix count as zeros (for complex vectors max and min range over absolute values). has_zero, has_nan, has_inf, empty and the vector forms hasZero, hasNaN, hasInf are true exactly when such an entry exists (empty: when all entries are zero).",
  ["inputs"], "every content, including all-negative, all-zero, single-entry and non-finite data",
  "The tests check aggregates on one vector or matrix with mixed signs; the start value of the maximum and the treatment of implicit zeros matter only for other data.",
  [S, "matrix/BaseMatrix.inl", "CountableSet.inl"],
  [("sum/max/min/avg", "CountableSet.inl"), ("sum/max/min/avg", "matrix/BaseMatrix.inl"), ("sum/max/min/avg", S)],
  ["sum", "max", "min", "avg", "has_zero", "has_nan", "has_inf", "empty", "hasZero", "hasNaN", "hasInf"]),
P("C07", "Vectors: element-wise arithmetic, products, slices and comparison are exact",
  "Dynamic and fixed vectors behave as plain arrays under every history of set, linear_set, [] writes, fill, swap, resize (dynamic), copies and iteration. +, -, *, / with vectors and scalars on either side, their compound forms, unary -, do_reciprocal, dot (the bilinear product, also for complex entries), magSqr (the product with itself) and, for real entries, mag and normalized have their mathematical meaning; left(i), right(i), mid(start,end) of a dynamic vector are the entries [0..i], [i..], [start..end), and has(start,end,v) searches that range. ==, dot and the compound vector operators on dynamic vectors of different length throw VectorSizeMismatchException and change nothing.",
  ["inputs", "histories"], "every length, content, operand order and slice bounds",
  "The tests use one three-element vector per operator, and the slice functions do not work in the tested build for dynamic vectors.",
  ["Vector.inl", "CountableSet.inl", "CountableSet.h"], [("operators, dot, slices", "Vector.inl"), ("storage, iteration", "CountableSet.inl")],
  ["at", "[]", "operators", "dot", "mag", "normalized", "left", "right", "mid", "has"]),
P("C08", "Special matrices, predicates and storage conversion match their definition",
  "For every matrix type, shape, order and offset, the constructors eye, diag (from a vector and of a matrix), tril, triu, hilbert and inv_hilbert produce exactly the defined matrices (hilbert times inv_hilbert is the identity). The predicates symmetric, hermitian, skew-symmetric, skew-hermitian, orthogonal, unitary and projection are true exactly for the matrices that satisfy the defining equation (false if not square). Converting between sparse and dense storage preserves shape and every entry.",
  ["inputs"], "every order and offset, every matrix type, every placement of a non-zero entry",
  "The tests check two or three sample matrices per predicate and constructor; a predicate that ignores one entry position or a constructor that is wrong from some order on passes.",
  ["matrix/MatrixConstructor.inl", "matrix/MatrixCheck.inl", "matrix/MatrixConverter.inl"],
  [("Construct::*", "matrix/MatrixConstructor.inl"), ("Check::*", "matrix/MatrixCheck.inl"), ("Convert::*", "matrix/MatrixConverter.inl")],
  ["Construct", "Check", "Convert"]),
P("C09", "LU decomposition returns P A = L U with partial pivoting, or reports singular",
  "For every regular square matrix, of every matrix type, doolittle returns a permutation matrix P, a unit lower triangular L whose entries have absolute value at most one, an upper triangular U with P A = L U, and a pivot count whose parity is the sign of P, whatever the output matrices held before. SingularException is thrown only for singular input (whatever is returned for singular input still satisfies P A = L U); non-square input throws NotSquareException and dense L or P outputs of the wrong size InvalidOutputMatrixException. The input matrix is not changed, and a pivot of at most the machine epsilon counts as zero.",
  ["inputs", "histories"], "every square matrix (all pivot orders) and every previous content of the outputs",
  "The tests decompose a few fixed 3x3/4x4 matrices into fresh outputs; row exchanges in later columns, ties, empty rows and reused outputs are not sampled.",
  ["LU.inl"], [("doolittle", "LU.inl")], ["LU::serial::doolittle"]),
P("C10", "Determinant, linear solve and inverse agree with exact linear algebra",
  "For every square matrix, of every matrix type, determinant is the determinant up to rounding (0 for singular or non-square matrices), inverse(A) satisfies A inverse(A) = inverse(A) A = I, and solve_lu(L, U, b) returns the x with L U x = b for any lower triangular L and upper triangular U with diagonals well above the machine epsilon. Inverting a singular matrix (up to rounding of the pivots) or solving with a zero diagonal throws SingularException, non-square or mis-sized operands throw the corresponding exception, and the inputs are not changed.",
  ["inputs"], "every square matrix and right-hand side, including permuted, singular and 1x1 ones",
  "The tests solve a few fixed systems; sign errors tied to the permutation, or errors in the substitution loops that cancel for the sampled sizes, stay hidden.",
  ["matrix/MatrixOperations.inl", "LU.inl"], [("Operations::determinant / inverse", "matrix/MatrixOperations.inl"), ("solve_lu", "LU.inl")],
  ["Operations::determinant", "Operations::inverse", "LU::serial::solve_lu"]),
P("C11", "Cholesky factorises every positive definite matrix and rejects the others",
  "For every symmetric (Hermitian, if complex) positive definite matrix, of every matrix type, cholesky returns a lower triangular L with positive diagonal and L L^H = A, whatever L held before. A symmetric (Hermitian) matrix that is not positive definite (up to rounding of a zero pivot) throws NotPositiveDefiniteException, non-square input NotSquareException and a wrong-sized output InvalidOutputMatrixException. The input matrix is not changed, and builds with NS_ALLOW_CHECKS reject input that is not Hermitian with NotHermitianException.",
  ["inputs", "histories"], "every symmetric/Hermitian matrix and every previous content of the output",
  "The tests factorise one matrix into a fresh output; semidefinite, indefinite and complex input and reused outputs are not sampled.",
  ["LU.inl"], [("cholesky", "LU.inl")], ["LU::serial::cholesky"]),
P("C12", "Incomplete LU reproduces A on its pattern; triangular inverses are exact",
  "For every square sparse matrix for which the elimination meets no pivot near zero, ilu0 returns a unit lower triangular L and an upper triangular U with entries only where A has entries (and the unit diagonal), such that L U equals A at every stored position of A. ainv_lu returns the inverses of a unit lower triangular L and of an upper triangular U, and, for unit lower triangular L, inverse(L,U) and inverse(L,U,P) return the matrix whose product with L U (with P^T L U) is the identity. None of these results depends on what output matrices held before; a zero pivot that has to be divided by throws SingularException and mis-shaped operands the corresponding exception.",
  ["inputs", "histories"], "every sparsity pattern and factor pair, every previous content of the outputs",
  "The tests check one tridiagonal-like matrix of a single size; fill-in positions, missing diagonals and larger orders are not sampled.",
  ["LU.inl", "matrix/MatrixOperations.inl"], [("ilu0, ainv_lu", "LU.inl"), ("inverse(L,U), inverse(L,U,P)", "matrix/MatrixOperations.inl")],
  ["LU::serial::ilu0", "LU::serial::ainv_lu", "Operations::inverse"]),
P("C13", "Jacobi and SOR perform the textbook iteration and report it truthfully",
  "For every square matrix with non-zero diagonal (sparse or dense), right-hand side, start vector, relaxation weight, tolerance and iteration limit, jacobi and sor return exactly the iterate the textbook method reaches from the start vector after the reported number of iterations. They stop at the first iterate whose distance to its predecessor is at most the tolerance, otherwise at the limit. A zero on the diagonal throws MatrixHasZeroInDiagException, a non-square matrix NotSquareException and mismatched vector sizes MatrixVectorMismatchException; no operand is changed.",
  ["inputs", "histories"], "every system, start vector, weight, tolerance and limit",
  "The tests only look at the limit of a converging run for one start vector, so a wrong sweep that still converges passes.",
  ["Iterative.inl"], [("jacobi / sor sweeps and stopping", "Iterative.inl")], ["Iterative::serial::jacobi", "Iterative::serial::sor"]),
P("C14", "Conjugate gradients follow the CG recurrence and terminate within n steps",
  "For every real symmetric positive definite matrix of order n, right-hand side and start vector, cg and pcg (with any symmetric positive definite preconditioner) limited to k iterations return the point of x0 plus the k-th (preconditioned) Krylov space with least energy-norm error, hence the exact solution after at most n iterations, and the start vector when it already solves the system. The reported iteration count is the number of iterations performed, and iterating stops as soon as the residual norm is at most the tolerance. The jacobi preconditioner is the inverse of the diagonal; a (near) zero diagonal throws SingularException, mismatched sizes throw, and so does, in builds with NS_ALLOW_CHECKS, a matrix that is not symmetric.",
  ["inputs", "histories"], "every SPD system, preconditioner, start vector, tolerance and limit",
  "The tests accept any approximate solution after many iterations; a wrong search direction only slows convergence and is not noticed.",
  ["CG.inl"], [("cg / pcg recurrences, jacobi preconditioner", "CG.inl")], ["CG::serial::cg", "CG::serial::pcg", "CG::serial::jacobi"]),
P("C15", "Cuthill-McKee yields a breadth-first permutation; permuting is exact",
  "For every square sparse matrix with symmetric pattern, cuthill_mckee returns a permutation of all row indices in which each connected component is numbered breadth-first from one of its rows of least entry count, the unnumbered neighbours of each row following in order of increasing entry count; r_cuthill_mckee returns the reversed order. inverse_permutation inverts, permutation_matrix has exactly the ones (i, p[i]), permutate(matrix, p) has entry (i,j) equal to entry (p[i],p[j]) of the matrix, permutate(vector, p) moves entry i to position p[i], and permuting with the inverse restores the original. Non-square or mis-sized operands throw.",
  ["inputs"], "every undirected sparsity graph incl. isolated rows and several components, every permutation",
  "The tests run one connected 10x10 example; disconnected graphs, isolated rows and ties are not sampled.",
  ["matrix/MatrixOrder.inl", "matrix/MatrixOrder.h"], [("cuthill_mckee, r_cuthill_mckee, permutate, inverse_permutation", "matrix/MatrixOrder.inl")],
  ["cuthill_mckee", "r_cuthill_mckee", "permutate", "inverse_permutation", "permutation_matrix"]),
P("C16", "Mesh preparation links exactly the triangles that share an edge",
  "For every triangle mesh handed over by its vertices and elements, setupNeighbors makes two elements neighbours exactly when they have the two vertices of an edge in common: each distinct edge becomes one edge object, entered with precisely the one or two elements that have it and stored in each of them opposite the vertex not on the edge. setupBoundaries flags exactly the vertices of edges that have one element (other flags stay). The result does not depend on vertex or element order, repeating the set-up changes nothing, and three elements sharing an edge throw TooManySharedFacesException.",
  ["inputs", "histories"], "every two-dimensional simplicial complex, every vertex and element order, repeated set-up, set-up after adding more elements",
  "The tests prepare one structured grid and one tiny mesh; orientation, element order and non-manifold input are not varied.",
  ["mesh/Mesh.inl", "mesh/Mesh.h"], [("setupNeighbors", "mesh/Mesh.inl"), ("setupBoundaries", "mesh/Mesh.inl"), ("addVertex / addElement", "mesh/Mesh.inl")],
  ["Mesh::elements", "MeshElement::Neighbors", "Mesh::edges", "MeshEdge::Elements", "MeshVertex::Flags", "MeshVertex::Elements"],
  [("shared mesh data", "vertices, elements, edges"), ("neighbour table", "element x local face -> edge")]),
P("C17", "Mesh handles share one data set and free it exactly once",
  "A mesh is a handle: copying or assigning makes both handles show the same data, every change through one is seen through all, and moving leaves the source usable only for destruction and assignment. Over any history of creation, copy, move, (self-)assignment, clear and destruction, the vertices, elements and edges live exactly as long as a handle refers to them and are freed exactly once: no leak, no double free, no use after free.",
  ["histories"], "every interleaving of create, copy, move, assign, self-assign, clear, add, prepare and destroy over several handles",
  "The tests never copy or assign a mesh; ownership errors show only for particular orders of handle operations.",
  ["mesh/Mesh.inl", "mesh/Mesh.h"], [("reference counting in constructors, assignments and destructor", "mesh/Mesh.inl"), ("clear", "mesh/Mesh.inl")],
  ["Mesh copy/move/assign/clear/destroy", "live element/vertex/edge counts"],
  [("reference count", "number of handles of a data set")]),
P("C18", "Mesh validation accepts every consistent mesh and rejects each kind of damage",
  "On a mesh whose elements have been prepared, validate() returns normally when every vertex carries its own index and lists only elements containing it (at least one), and every element has all its vertices with matching coordinates, positive volume and all neighbour edges. For any single violation it throws: InvalidVertexIndex, IsolatedVertex, MalformedVertexElementConnection, IncompleteElement, ZeroVolumeSimplex or MalformedElementNeighborConnection respectively. It never changes the mesh, and it also accepts meshes prepared for shape functions.",
  ["inputs"], "every consistent mesh, and every single damage to one",
  "The tests validate two good meshes; no test damages a mesh.",
  ["mesh/Mesh.inl"], [("validate", "mesh/Mesh.inl")], ["Mesh::validate"]),
P("C19", "The grid generator tiles exactly the requested box",
  "For every number of cells per direction (also different ones), every positive size and every offset, the two-dimensional hypercube generator produces the complete set of grid vertices of the box [offset, offset+size] and exactly two triangles per grid cell that tile it: positive volumes summing to the area of the box, every interior edge shared by two elements, exactly the vertices on the border of the box flagged as boundary, neighbours already linked, and (after prepare) accepted by validate(). A cell count of zero throws InvalidElementCountException.",
  ["inputs"], "every cell count per direction, size and offset",
  "The tests generate one or two grids; only equal cell counts in both directions are sampled.",
  ["mesh/HyperCube.inl", "mesh/HyperCube.h"], [("generate", "mesh/HyperCube.inl")], ["HyperCube::generate"]),
P("C20", "Triangle geometry agrees with exact geometry for every non-degenerate triangle",
  "For every triangle whose size lies well above the machine epsilon, matrix, inverseMatrix, determinant and volume equal the exact values (the matrix columns are the edge vectors from vertex 0), toLocal and toGlobal are mutually inverse affine maps sending the vertices to the reference vertices, and gradient(i) is the gradient of the i-th barycentric coordinate. center and outerRadius describe the circumcircle, diameter is the longest edge, faceCenter(i) the midpoint of the edge opposite vertex i and faceNormal(i) its outward unit normal, wherever the triangle lies and however its vertices are ordered.",
  ["inputs"], "every placement, orientation and vertex order of a triangle",
  "The tests use the reference triangle and one scaled copy at the origin; translation, orientation and skewness are not varied.",
  ["Simplex.inl", "Simplex.h", "Normal.h"], [("prepare, volume, toLocal/toGlobal, gradient, center, faceNormal", "Simplex.inl"), ("normal", "Normal.h")],
  ["Simplex::volume", "determinant", "matrix", "inverseMatrix", "toLocal", "toGlobal", "gradient", "center", "outerRadius", "diameter", "faceCenter", "faceNormal"]),
P("C21", "Shape functions are the Lagrange basis of their order, with exact derivatives",
  "For every offered pair of dimension and order (1D: 1-2, 2D: 1-3, 3D: 1-2) the number of shape functions is binomial(dimension+order, order), at the k-th node of the node layout the k-th function is 1 and all others are 0, and at every point the values sum to 1 and reproduce all polynomials up to the order. gradient and gradient2 are the exact first derivatives and pure second derivatives of the values at every point.",
  ["inputs"], "every dimension/order pair the library offers, every node, every evaluation point",
  "The tests evaluate low orders at a few nodes; second derivatives and higher orders are not compared with anything.",
  ["sf/PolyShapeFunction.inl", "sf/PolyShapeFunction.h"], [("coefficient matrices, value/gradient/gradient2", "sf/PolyShapeFunction.inl")],
  ["PolyShapeFunction::value", "gradient", "gradient2", "DOF"]),
P("C22", "Preparing a mesh for shape functions numbers every degree of freedom once",
  "prepareMesh on a linked triangle mesh gives every element its degrees of freedom in the node order of the shape functions: its three vertices, and for order 2 the midpoints of the edges 0-1, 1-2 and 2-0, each located exactly there. Each edge has exactly one midpoint vertex, shared by both of its elements, listed by the edge and listing exactly these elements, marked implicit, and marked boundary exactly when the edge has one element; order 1 adds no vertex. Existing vertices keep index and position, new ones continue the numbering, so the global indices are 0..n-1 without repetition.",
  ["inputs", "histories"], "every conforming triangle mesh, both orders, every vertex order of neighbouring elements",
  "The tests prepare one mesh and count; agreement of neighbours in opposite orientation is not checked.",
  ["sf/PolyShapeFunction.inl", "mesh/Mesh.h"], [("prepareMesh", "sf/PolyShapeFunction.inl")],
  ["PolyShapeFunction::prepareMesh", "MeshElement::DOFVertices", "MeshEdge::DOFVertices", "Mesh::vertices"]),
P("C23", "Quadrature rules integrate polynomials of their degree exactly",
  "For dimensions 1 and 2 and orders 1 to 3 the Gauss-Legendre rule has all points inside the reference simplex, weights that sum to its volume, and integrates every polynomial of degree at most 2*order-1 (1D) or order (2D) exactly up to rounding. eval(f, start) and eval_index(f, start) return start plus the weighted sum of f over all points, each point visited once in order with its own index.",
  ["inputs", "configurations"], "every dimension and order offered, every polynomial up to the degree, every start value and result type",
  "The tests integrate a few monomials per rule; a slightly wrong weight/point pair that the sampled monomials do not see passes.",
  ["quadrature/GaussLegendreQuadratureFactory.inl", "quadrature/Quadrature.inl"],
  [("point/weight tables", "quadrature/GaussLegendreQuadratureFactory.inl"), ("eval, eval_index", "quadrature/Quadrature.inl")],
  ["GaussLegendreQuadratureFactory", "Quadrature::eval", "Quadrature::eval_index"]),
P("C24", "The triangle loader reads every well-formed node/element text, rejects others",
  "For every well-formed pair of .node and .ele texts (header, consecutively numbered lines starting at 0 or 1, blank lines, # comments, any spacing, ignored trailing columns) the loader returns the mesh with exactly the given vertices and elements in order, neighbours linked. A missing header, a wrong dimension or node count in it, a missing or non-numeric field, a wrong line number, a count of zero, a number of lines different from the header and a vertex reference outside the mesh throw LoadTriangleNodeErrorException or LoadTriangleElementErrorException according to the text at fault; nothing is leaked and no invalid memory is touched.",
  ["inputs", "fault_sequences"], "every well-formed text, every single-token damage or truncation of one",
  "The tests load one or two good files; damaged input is hardly sampled.",
  ["loader/MeshTriangleLoader.inl", "loader/MeshTriangleLoader.h"], [("loadString / loadFile, setupNode, setupElement, extractFirstNumber, skipWS", "loader/MeshTriangleLoader.inl")],
  ["MeshTriangleLoader::loadString", "MeshTriangleLoader::loadFile"]),
P("C25", "The OBJ loader returns the vertices and triangles of the first shape",
  "For every OBJ text whose faces are triangles the loader returns a mesh with the first shape's vertices (the two selected coordinates each) and one element per triangular face naming the right vertices in order, linked both ways with neighbours set up, so that it equals the mesh built by hand. An unreadable file throws LoadObjErrorException, and nothing is leaked.",
  ["inputs"], "every OBJ text with triangle faces, absolute or relative indices, several shapes, both coordinate selections",
  "No test covers the OBJ loader in depth.",
  ["src/objloader/loader/MeshObjLoader.inl"], [("load", "src/objloader/loader/MeshObjLoader.inl")], ["MeshObjLoader::loadString", "MeshObjLoader::loadFile"]),
P("C26", "The VTK export writes a complete, well-formed file of the mesh and its data",
  "For every triangle mesh prepared for first or second order shape functions, every set of named point and cell fields (including none; names free of XML special characters) and every combination of output options (IsQuadratic given exactly for second order), the VTK exporter writes a well-formed XML document whose declared numbers of points and cells are the mesh's, whose points are all vertices in index order with their coordinates (numbers are printed with six significant digits; the third coordinate is 0), whose cells name exactly the degree-of-freedom indices of each element with matching offsets and cell type, and whose data arrays hold the given values and requested labels unchanged and in order.",
  ["inputs", "configurations"], "every triangle mesh, every set of fields, every option combination",
  "No test reads back an exported file.",
  ["export/VTKExporter.inl", "export/VTKExporter.h"], [("write", "export/VTKExporter.inl")], ["file written by VTKExporter::write"]),
P("C27", "Text output of vectors and matrices shows every entry in place",
  "Streaming a vector writes all entries in order between brackets ([ a b ]), streaming a dense or fixed matrix writes every entry row by row with a separator between rows ([ a b | c d ]), and streaming a sparse matrix writes exactly one (row, column; value) item per stored non-zero entry in row-major order. The printed text therefore determines the content, for real and complex entries.",
  ["inputs"], "every shape and content, real and complex",
  "Output is only used for diagnostics in the tests and never compared.",
  ["OutputStream.h"], [("operator <<", "OutputStream.h")], ["operator <<"]),
P("C28", "Combinatorial helpers and the normal construction are exact",
  "sign_pow, factorial and binom (integral n >= 0: whenever result times n fits the type; binom is 0 for k > n) and t_min, t_max return the exact mathematical value, and binom for floating-point n the generalised binomial coefficient. normal(vectors) returns, for every independent set of K-1 vectors in 2D, 3D and 4D, the unit vector orthogonal to all of them with the orientation of the generalised cross product.",
  ["inputs"], "every argument whose result is representable; every set of independent vectors",
  "The tests check three or four values; the multiplicative loops can go wrong for other arguments only.",
  ["Utils.h", "Normal.h"], [("binom / factorial / sign_pow", "Utils.h"), ("normal", "Normal.h")], ["Math::*"]),
P("C29", "Row-maximum and row-minimum norms and the condition estimate are exact",
  "For every real matrix of every matrix type and shape, max_norm2 is the square root of the sum over the rows of the square of the largest absolute value in the row, min_norm2 the same with the smallest absolute value (of a sparse matrix: among the stored entries, every row having one), and cond is max_norm2 divided by min_norm2. The matrix is not changed.",
  ["inputs"], "every content (sign, position of the extreme entry in each row), shape and storage kind",
  "No test calls these functions; a result that ignores a row, a sign or the last entry goes unnoticed.",
  ["matrix/MatrixOperations.inl"], [("max_norm2 / min_norm2 / cond", "matrix/MatrixOperations.inl")], ["Operations::max_norm2", "Operations::min_norm2", "Operations::cond"]),
P("C30", "Finite element computations from the library's parts reproduce polynomials",
  "For every conforming triangle mesh, whether generated as a grid, loaded in one of the two formats or built by hand and linked, and for order 1 and 2: after prepare, validate and prepareMesh, the stiffness matrix, the mass matrix (order 1) and the load vector assembled by quadrature of sufficient order from the shape functions' values and gradients and each triangle's inverse matrix, determinant and toGlobal equal the exact ones, in a sparse or dense matrix. With the values of a polynomial of at most that degree prescribed at the boundary-flagged nodes, CG, preconditioned CG, SOR, Cholesky, Doolittle LU, inverse and CG after Cuthill-McKee reordering all return the polynomial's values at the nodes, and the shape functions turn these into its exact values, gradients and integral everywhere in the mesh.",
  ["inputs", "configurations"], "every mesh and way of making it, order, quadrature, matrix kind, solver, polynomial and coefficients",
  "No test runs mesh, shape functions, quadrature, assembly and solver together; each part is tested alone against a few fixed numbers, so parts that disagree (node order, orientation, boundary flags, transposition) are not noticed.",
  ["sf/PolyShapeFunction.inl", "Simplex.inl", "quadrature/Quadrature.inl", "mesh/Mesh.inl", "CG.inl"], [("prepareMesh, value, gradient", "sf/PolyShapeFunction.inl"), ("inverseMatrix, toLocal/toGlobal", "Simplex.inl"), ("solvers", "CG.inl, Iterative.inl, LU.inl, matrix/MatrixOrder.inl")], ["HyperCube::generate", "MeshTriangleLoader::loadString", "MeshObjLoader::loadString", "PolyShapeFunction", "Quadrature::eval", "Simplex", "CG::serial", "Iterative::serial::sor", "LU::serial", "Operations::inverse"]),
P("C31", "Finite difference computations put together from the matrices are exact",
  "For every grid on a rectangle, step sizes and coefficient: the system of the implicit scheme for the heat equation (all times together, or the Poisson equation without time) has exactly the entries written to it in whatever order, and the matrix of a single time step comes out the same however it is put together: entry by entry, from products of difference matrices with their transposes, from triangles, from the identity and neighbour matrices by scaling, adding and subtracting, or through a conversion to the other storage. The residual of the exact solution is zero both from A x and from the left with the transposed matrix. SOR, Jacobi, Doolittle LU, Cholesky, the inverse, CG, and CG preconditioned by the diagonal or by the incomplete LU factors' approximate inverses, also after Cuthill-McKee reordering, return the solution's values at all nodes, time step after time step, whenever the solution is a polynomial for which the difference quotients are exact.",
  ["inputs", "configurations", "histories"], "every grid, step sizes, coefficient, way of putting the matrix together, storage, solver and polynomial",
  "The examples solve such systems but check nothing; the tests use a handful of small fixed matrices and never chain construction, algebra, factorisation and time stepping.",
  ["matrix/SparseMatrix.inl", "matrix/MatrixConstructor.inl", "LU.inl", "CG.inl", "Iterative.inl", "matrix/MatrixOrder.inl"], [("set, mul, transpose, operators", "matrix/SparseMatrix.inl, matrix/DenseMatrix.inl, matrix/BaseMatrix.inl"), ("eye, diag, tril, triu", "matrix/MatrixConstructor.inl"), ("solvers", "CG.inl, Iterative.inl, LU.inl")], ["SparseMatrix", "DenseMatrix", "Construct", "Convert", "CG::serial", "Iterative::serial", "LU::serial", "Operations::inverse", "cuthill_mckee", "permutate"]),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props: f.write(json.dumps(p) + "\n")
print(len(props))
