#!/usr/bin/env python3
"""Writes properties.jsonl (source of truth for the property list)."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe or [],hook_needed=None)))
L='src/lib/'
SP=[L+'matrix/SparseMatrix.h',L+'matrix/SparseMatrix.inl']
prop('C01','Sparse matrix storage behaves as a zero-default map',
 "A sparse matrix always reads back exactly what was last written at each position and 0 everywhere else: writing one entry (by row/column or by linear index) changes that entry and no other, writing 0 removes it, and a value test reports an entry exactly when it is stored. The number of filled entries equals the number of stored positions, dimensions never change through reads and writes, swapping two matrices exchanges their whole contents including dimensions, and in-range accesses never abort or read outside the storage.",
 ['inputs','histories'],"all matrix shapes, all reachable stored patterns, all write sequences and values",
 "Tests build a handful of small matrices and check a few entries; the ordering/offset invariants of compressed storage must survive every history of inserts and removals, including into empty rows, last rows and the middle of rows.",
 SP,[('internal_at / set_at / remove_at / row_entry_count',L+'matrix/SparseMatrix.inl'),('set, at, has, linear_at, linear_set, swap, constructors',L+'matrix/SparseMatrix.inl')],
 [('mValues,mColumnPtr,mRowPtr,mColumnCount','compressed-row representation',L+'matrix/SparseMatrix.h')],['SparseMatrix::at/has/set/linear_*/filled_count/swap'])
prop('C02','Sparse iteration visits exactly the stored entries in order',
 "Iterating a sparse matrix as a whole, along one row, or along one column yields every stored entry of that range exactly once, in row-major (respectively increasing column or row) order, with the right position and value, and then compares equal to the end; a row or column without entries yields nothing. Row and column entry counts agree with this. Writing through an iterator changes only that entry, and removing through an iterator removes exactly that entry and returns a position at the entry that followed it, or the end.",
 ['inputs','histories'],"all stored patterns, including empty rows/columns anywhere, and all interleavings of iterator steps and iterator writes/removals",
 "Tests iterate a few fixed patterns; the row bookkeeping in advance/erase depends on where empty rows are and on which entry of a row is removed.",
 SP,[('operator++ of the three iterator classes',L+'matrix/SparseMatrix.inl'),('begin/row_begin/column_begin, set(it), erase(it), row_filled_count, column_filled_count',L+'matrix/SparseMatrix.inl')],
 [('mIndex1,mIndex2,mColumnPtrIndex','iterator position',L+'matrix/SparseMatrix.h')],['iterator row()/column()/operator*'])
prop('C03','Sparse arithmetic equals entrywise linear algebra',
 "For sparse matrices of matching dimensions, sum, difference, element-wise product, scalar product, negation, transpose, conjugate, conjugate transpose, trace, equality, matrix-matrix and matrix-vector products (from both sides) give at every position exactly what the mathematical definition over all entries (stored or not) gives, whatever the stored patterns are and also when an operand is combined with itself. Operands that are not the target are left unchanged, and a product of incompatible dimensions is rejected with an exception.",
 ['inputs'],"all shapes, patterns and values (over exact arithmetic)",
 "The result must be right for every combination of overlapping and disjoint patterns and cancellations; tests use a few 2x2..4x4 examples.",
 SP,[('operator+=, -=, *=, transpose, conjugate, adjugate, mul, mul_left, trace, operator==',L+'matrix/SparseMatrix.inl')],None,['result at(i,j)'])
DN=[L+'matrix/BaseMatrix.h',L+'matrix/BaseMatrix.inl',L+'matrix/DenseMatrix.h',L+'matrix/DenseMatrix.inl',L+'matrix/FixedMatrix.h',L+'matrix/FixedMatrix.inl']
prop('C04','Dense and fixed matrix storage and iterators are exact',
 "In dense and fixed-size matrices every position is an independent cell: reading returns the last value written there (by row/column, by linear row-major index, or through an iterator), a write changes no other cell, new matrices are zero except for the initializer values which land at their row and column, and value tests mean 'not equal to zero'. Whole-matrix, row and column iterators visit each cell of their range exactly once in row-major (respectively column or row) order and then equal the end, and in-range accesses never abort.",
 ['inputs','histories'],"all shapes, all positions, all write sequences",
 "Index arithmetic is wrong only for particular non-square shapes or positions (last row/column); tests sample a few.",
 DN,[('at/set/linear_at/linear_set/has, iterator operator++ and operator*',L+'matrix/BaseMatrix.inl'),('constructors, swap',L+'matrix/DenseMatrix.inl')],
 [('mValues.Container/RowCount/ColumnCount','row-major storage',L+'matrix/BaseMatrix.h')],['at(i,j)'])
prop('C05','Dense and fixed arithmetic equals entrywise linear algebra',
 "For dense and fixed-size matrices, sum, difference, element-wise product, scalar product, negation, transpose, conjugate, conjugate transpose, trace, equality, matrix-matrix and matrix-vector products (both sides) give at every position the value of the mathematical definition, including when an operand is combined with itself, and leave non-target operands unchanged. Operands whose row or column counts do not fit are rejected with an exception and the target stays as it was.",
 ['inputs'],"all shapes and values (over exact arithmetic)",
 "Tests check a few square examples; transposed index mistakes only show on non-square shapes and the dimension guards on same-size-different-shape operands.",
 DN,[('operator+=,-=,*=, transpose, conjugate, adjugate, mul, mul_left',L+'matrix/DenseMatrix.inl and FixedMatrix.inl'),('trace, operator==',L+'matrix/BaseMatrix.inl')],None,['result at(i,j)'])
VE=[L+'CountableSet.h',L+'CountableSet.inl',L+'Vector.h',L+'Vector.inl']
prop('C06','Vector operations equal componentwise definitions',
 "For dynamic and fixed vectors every binary operation with a vector or a scalar (on either side), negation, reciprocal, fill, dot product, squared magnitude, magnitude, normalisation, equality and membership test equals its componentwise mathematical definition, leaving the other operand unchanged, also for a vector combined with itself. Combining or comparing vectors of different lengths is rejected with an exception and changes nothing.",
 ['inputs'],"all lengths and values (over exact arithmetic)",
 "Tests use one or two short vectors; the claim is for every length and component.",
 VE,[('operators, dot, mag, normalized, has',L+'Vector.inl'),('do_reciprocal, fill, swap, element access, iterator',L+'CountableSet.inl')],None,['at(i)'])
prop('C07','Reductions over vectors and matrices are exact',
 "Sum, average, minimum, maximum and the has-zero / has-NaN / has-infinity / is-empty tests of vectors, dense, fixed and sparse matrices equal the mathematical reduction over all their elements, where elements a sparse matrix does not store count as zero. In particular the maximum of all-negative data is its largest element, and each extremum is attained by some element.",
 ['inputs'],"all sizes >= 1, all real values",
 "Sign patterns (all negative, all positive, zeros only implicit) matter; tests only use positive samples.",
 VE+DN+SP,[('sum/max/min/avg/hasNaN/hasInf/hasZero',L+'CountableSet.inl'),('sum/max/min/avg/has_*/empty',L+'matrix/BaseMatrix.inl, SparseMatrix.inl')],None,['return values'])
prop('C08','Matrix constructors produce the defined matrix',
 "The identity, diagonal-from-vector, diagonal extraction, lower-triangular and upper-triangular part (for every diagonal offset, negative ones included), and Hilbert constructors, in dense and sparse storage, produce at every position exactly the entry given by their definition, for every size including non-square inputs, and leave their inputs unchanged.",
 ['inputs'],"all sizes, shapes and argument values",
 "Tests check fixed 3x3/4x4 cases only.",
 [L+'matrix/MatrixConstructor.h',L+'matrix/MatrixConstructor.inl'],[('eye, diag, tril, triu, hilbert',L+'matrix/MatrixConstructor.inl')],None,['result at(i,j)'])
prop('C09','Matrix predicates decide their definition',
 "Each structural predicate (symmetric, Hermitian, skew-symmetric, skew-Hermitian, orthogonal, unitary, projection) answers true exactly when the matrix is square and satisfies the mathematical definition over all its entries, and false otherwise, for dense and sparse matrices of every shape and pattern, without changing the matrix.",
 ['inputs'],"all shapes, patterns and values",
 "A predicate that skips one position (last row, corner, non-stored entry) is only caught by a matrix that violates the definition exactly there.",
 [L+'matrix/MatrixCheck.h',L+'matrix/MatrixCheck.inl'],[('predicates',L+'matrix/MatrixCheck.inl')],None,['bool results'])
prop('C10','Conversions between storage kinds preserve every entry',
 "Converting a matrix between sparse, dense and fixed storage yields a matrix of the same dimensions with the same value at every position, and leaves the source unchanged.",
 ['inputs'],"all shapes, patterns, values",
 "No existing test converts matrices.",
 [L+'matrix/MatrixConverter.h',L+'matrix/MatrixConverter.inl'],[('toDense / toSparse conversions',L+'matrix/MatrixConverter.inl')],None,['at(i,j) of result'])
prop('C11','LU decomposition with pivoting satisfies PA = LU',
 "For every square matrix for which it returns, the pivoted LU decomposition delivers a permutation matrix P, a unit lower triangular L and an upper triangular U such that PA = LU entry by entry, with a row-exchange count of the parity of P. It rejects a non-square matrix, dense outputs L and P of the wrong shape, and a matrix whose largest pivot candidate at some elimination step vanishes with an exception, and never changes the input.",
 ['inputs'],"all square sizes and all real matrices (exact arithmetic)",
 "Row exchanges interact with earlier columns; the handful of tested matrices exercise few exchange patterns.",
 [L+'LU.h',L+'LU.inl'],[('doolittle',L+'LU.inl')],None,['P,L,U'])
prop('C12','Triangular solves and inverse satisfy their equations',
 "Given triangular factors with non-zero diagonals, forward and backward substitution return the vector that satisfies the triangular systems, so that solving with LU factors returns x with L U x = b (respectively the permuted right-hand side). The inverse of a non-singular matrix multiplied with the matrix from either side is the identity.",
 ['inputs'],"all sizes and all admissible factors / matrices (exact arithmetic)",
 "Tests solve one or two systems of fixed size.",
 [L+'LU.h',L+'LU.inl',L+'matrix/MatrixOperations.h',L+'matrix/MatrixOperations.inl'],[('solve',L+'LU.inl'),('inverse',L+'matrix/MatrixOperations.inl')],None,['solution vector','inverse matrix'])
prop('C13','Cholesky factor reproduces the matrix',
 "For a symmetric positive definite (complex: Hermitian) matrix the Cholesky factorisation returns a lower triangular matrix with positive diagonal whose product with its conjugate transpose is the input, entry by entry. A matrix that is not square, outputs of the wrong shape, or a real matrix for which a pivot is not positive, is rejected with an exception instead of producing undefined numbers.",
 ['inputs'],"all sizes, all symmetric real matrices (exact arithmetic)",
 "Tests factor one 3x3 matrix.",
 [L+'LU.h',L+'LU.inl'],[('cholesky',L+'LU.inl')],None,['factor L'])
prop('C14','Incomplete factorisation respects pattern and equations',
 "The zero-fill incomplete LU factorisation produces a unit lower triangular and an upper triangular factor whose entries, apart from the unit diagonal, exist only where the input has entries, and whose product agrees with the input on every stored position of the input's pattern. The inverses computed for given triangular factors, multiplied with these factors, give the identity. Non-square inputs and vanishing pivots are rejected with an exception.",
 ['inputs'],"all sizes, all patterns (exact arithmetic)",
 "Agreement on the pattern is a statement about every pattern; tests use one matrix.",
 [L+'LU.h',L+'LU.inl'],[('ilu_0, ainv_lu',L+'LU.inl')],None,['L,U'])
prop('C15','Determinant equals the mathematical determinant',
 "The determinant of a square matrix equals the mathematical determinant for every size, shape of zeros and storage kind (pivots below the rounding threshold count as zero), so it is zero for a singular matrix, changes sign under a row exchange and multiplies along the diagonal of a triangular matrix. A non-square matrix yields 0, and the input is never changed.",
 ['inputs'],"all square sizes and values (exact arithmetic)",
 "Tests check a few sizes with fixed values; sizes are dispatched to different formulas.",
 [L+'matrix/MatrixOperations.h',L+'matrix/MatrixOperations.inl'],[('determinant',L+'matrix/MatrixOperations.inl')],None,['return value'])
prop('C16','Jacobi and SOR perform the defined sweep and stop honestly',
 "Each step of the Jacobi and relaxation solvers maps the current iterate to exactly the iterate of the mathematical method (relaxation starting from the caller's initial vector), the reported iteration count never exceeds the allowed maximum, and the solver reports convergence only when the last step's change is a number within the requested tolerance. The matrix and right-hand side are unchanged, and mismatched dimensions are rejected with an exception.",
 ['inputs','histories'],"all sizes, matrices with non-zero diagonal, start vectors, weights, tolerances, iteration limits",
 "Tests only check that one diagonally dominant system converges; wrong sweeps often still converge.",
 [L+'Iterative.h',L+'Iterative.inl'],[('jacobi, sor',L+'Iterative.inl')],None,['returned vector, iteration count'])
prop('C17','Conjugate gradient follows the method and stops honestly',
 "In the (preconditioned) conjugate gradient solvers the maintained residual always equals right-hand side minus matrix times current iterate, successive search directions are conjugate and the new residual is orthogonal to the old one, as long as no breakdown occurs. They return at once when the start is already a solution, stop only when the residual criterion holds or the iteration limit is reached, and never produce undefined numbers from a zero residual.",
 ['inputs','histories'],"all sizes, symmetric matrices, right-hand sides, starts and limits (exact arithmetic)",
 "A wrong direction update still converges on the tiny tested systems, only more slowly.",
 [L+'CG.h',L+'CG.inl'],[('cg, pcg',L+'CG.inl')],None,['returned vector, iteration count'])
prop('C18','Orderings are permutations and permuting follows them',
 "The bandwidth-reducing orderings always return each index exactly once, for every pattern including empty rows and disconnected graphs, and the reversed ordering is exactly the reverse. Permutation matrices and inverse permutations match their permutation, and permuting a matrix or a vector places every element of the input at exactly the position the permutation assigns to it, losing and duplicating none.",
 ['inputs'],"all sizes, patterns and permutations",
 "Only one connected example is tested.",
 [L+'matrix/MatrixOrder.h',L+'matrix/MatrixOrder.inl'],[('cuthill_mckee, r_cuthill_mckee, permutation_matrix, inverse_permutation, permutate',L+'matrix/MatrixOrder.inl')],None,['permutation vector, permuted matrix'])
prop('C19','Combinatorial helpers equal their definitions',
 "The minimum/maximum helpers, the sign power, the factorial and the binomial coefficient (non-negative integer or any real upper argument) return exactly the mathematical value for every argument whose result and intermediate products are representable.",
 ['inputs'],"all admissible arguments",
 "Tests check a few arguments.",
 [L+'Utils.h'],[('t_min,t_max,sign_pow,factorial,binom',L+'Utils.h')],None,['return values'])
prop('C20','Simplex geometry matches its vertices',
 "For every non-degenerate triangle the affine maps between local and global coordinates are mutual inverses and send the reference corners to the vertices; the reported matrix, determinant, volume, shape gradients, face centres, diameter, circumcentre and circumradius are those of the simplex spanned by its vertices, whatever its position, orientation and scale.",
 ['inputs'],"all vertex positions in the plane, the supported dimension (exact arithmetic)",
 "Tests use the reference simplex at the origin, for which translation, orientation and scale mistakes cancel.",
 [L+'Simplex.h',L+'Simplex.inl'],[('prepare, toLocal, toGlobal, center, radii, volume',L+'Simplex.inl')],None,['returned coordinates'])
prop('C21','Meshes keep vertex/element/edge links consistent',
 "While a mesh is built, every vertex gets the index at which it was added, adding an element copies its vertex coordinates and registers it exactly once with each of its vertices, and nothing else changes. Setting up neighbours creates exactly one edge object per face, linked from both elements that share the face and listing exactly its vertices and elements; boundary flags mark exactly the vertices of faces with one element; validation accepts a mesh exactly when every vertex carries its index and belongs to at least one element, only elements containing it are registered with it, and every element has all its vertices with matching coordinates, a volume above the rounding threshold and all its neighbour edges.",
 ['inputs','histories'],"all meshes, all construction orders",
 "Tests use one or two tiny meshes.",
 [L+'mesh/Mesh.h',L+'mesh/Mesh.inl'],[('addVertex/addElement/addEdge, setupNeighbors, boundary flags',L+'mesh/Mesh.inl')],None,['vertices(), elements(), edges()'])
prop('C22','Hypercube generation covers the box exactly',
 "A generated two-dimensional hypercube mesh has the number of vertices and elements determined by the subdivision counts, all vertices lie at the grid positions of the requested box, each once, boundary flags mark exactly the vertices on the box boundary, and its elements tile the box without overlap, all with the same orientation, sharing vertices. This holds for every box size and every combination of per-axis subdivision counts.",
 ['inputs','configurations'],"all box sizes, all subdivision counts per axis",
 "Tests only check equal subdivision counts.",
 [L+'mesh/HyperCube.h',L+'mesh/HyperCube.inl'],[('generate',L+'mesh/HyperCube.inl')],None,['mesh vertices and elements'])
prop('C23','Meshes own their parts: copy, move, clear are safe',
 "A mesh is a counted handle on its content: a copy refers to the same vertices, elements and edges, moving transfers the handle, assigning a mesh to itself changes nothing, and destroying or reassigning the last handle, or clearing, releases every vertex, element and edge exactly once and never earlier; a cleared mesh is empty and usable.",
 ['histories'],"all meshes and all sequences of copy/move/assign/clear",
 "Lifetime errors appear only for particular sequences (self-assignment, reuse after clear).",
 [L+'mesh/Mesh.h',L+'mesh/Mesh.inl'],[('copy/move constructors and assignments, clear, destructor',L+'mesh/Mesh.inl')],None,['mesh contents, allocation balance'])
prop('C24','Shape functions form a consistent nodal basis',
 "For every supported dimension and order the shape functions equal 1 at their own node and 0 at the others and sum to 1 everywhere, for every choice of the per-coefficient weights the reported first and (unmixed) second derivatives are the exact derivatives of the reported value, and the number of degrees of freedom is the number of nodes. Every component of every supported combination can be evaluated.",
 ['inputs','configurations'],"all local coordinates and weights, the supported combinations of dimension (1-3) and order (1-3)",
 "A wrong coefficient shows only at particular coordinates; tests evaluate some combinations only.",
 [L+'sf/PolyShapeFunction.h',L+'sf/PolyShapeFunction.inl'],[('value, gradient, gradient2, DOF',L+'sf/PolyShapeFunction.inl')],None,['values, gradients'])
prop('C25','Quadrature rules are exact to their stated order',
 "Every quadrature rule integrates all polynomials up to its documented degree exactly over the reference simplex: its weights add up to the reference volume and all its points lie inside the reference simplex; evaluating the rule adds to the start value function values times weights over exactly the rule's points, each once, with its index.",
 ['inputs','configurations'],"all supported dimensions (1,2) and orders (1-3), all polynomials up to the degree, all integrands",
 "Tests integrate a few functions; one wrong digit in a table changes only some monomials.",
 [L+'quadrature/GaussLegendreQuadratureFactory.inl',L+'quadrature/Quadrature.inl'],[('factory tables, evaluation',L+'quadrature/')],None,['points, weights, integral'])
prop('C26','VTK export writes the mesh and data it is given',
 "The file written for a two-dimensional mesh is a VTK unstructured grid document that describes exactly the given mesh and data: the point and cell counts; every vertex in order as its two coordinates and 0; for every element in order the indices of its degree-of-freedom vertices; the running offsets and the cell type (5 with 3 points per cell, or 22 with 6 for quadratic output); one array per given point or cell field, with its name and its values in order; and, exactly when asked for, the strong-boundary and implicit label of every vertex and the determinant, the matrix (row by row) and the gradient of the first shape function of every element. Nothing of the mesh or the fields changes. (Values in the stream's default precision; names without characters that are special in XML.)",
 ['inputs','configurations'],"all two-dimensional meshes, all fields, all combinations of the output options",
 "No test checks the written document.",
 [L+'export/VTKExporter.h',L+'export/VTKExporter.inl'],[('write',L+'export/VTKExporter.inl')],None,['output file'])
prop('C27','Mesh file loaders build the described mesh or reject the file',
 "Loading a well-formed triangle mesh (vertex text and element text) yields exactly the vertices and elements it describes, in order: coordinates are the two numbers of each vertex entry, corners are the three numbers of each element entry (counted from the number of the first entry, 0 or 1), comments, blank lines and further columns are ignored, and faces, neighbours and registrations are set up. A text is rejected with an exception, never by touching memory outside the mesh, when its header is missing or wrong, a field is missing or is not a number, entries are out of order, their number differs from the header, or an element names a vertex that does not exist or one vertex twice. Loading an object file yields the vertices and triangles of its first shape (with the chosen coordinate axes) and rejects triangles without three different existing vertices. A face shared by three elements is rejected.",
 ['inputs'],"all texts and all shapes handed over by the object file reader",
 "Tests load one file of each kind; a wrong check shows only for particular damaged files.",
 [L+'loader/MeshTriangleLoader.inl','src/objloader/loader/MeshObjLoader.inl'],[('skipWS, extractFirstNumber, setupNode, setupElement, loadString',L+'loader/MeshTriangleLoader.inl'),('load','src/objloader/loader/MeshObjLoader.inl')],None,['resulting mesh, exceptions'])
prop('C28','Outward normals are unit and orthogonal to their face',
 "The normal computed from spanning vectors is orthogonal to all of them and has unit length, and the normal of a face of a simplex additionally points away from the opposite vertex, for every configuration whose minors exceed the rounding threshold, and every orientation.",
 ['inputs'],"all spanning vectors in dimensions 2 and 3, all triangles (exact arithmetic)",
 "Tests use axis-aligned faces.",
 [L+'Normal.h',L+'Simplex.inl'],[('normal computation',L+'Normal.h'),('faceNormal',L+'Simplex.inl')],None,['normal vector'])
prop('C29','Preparing a mesh for polynomial shape functions places every node once',
 "Preparing a two-dimensional mesh (linked, not prepared before) for linear shape functions makes the three corners the nodes of every element, in order, and the two vertices the nodes of every edge, and changes nothing else. For quadratic shape functions it creates exactly one new vertex for every edge that some element has: at the middle of the edge, marked implicit and, exactly when the edge has fewer than two elements, as strong boundary, appended to the mesh with its index and registered with exactly the elements that have the edge; it is the third node of the edge and one of the last three nodes of each of these elements (those opposite to corner 2, then 0, then 1). Vertices that existed before keep their coordinates, flags, index and registrations.",
 ['inputs','configurations'],"all two-dimensional meshes whose elements have three different neighbour edges, orders 1 and 2 (exact arithmetic for the middle)",
 "No test prepares a mesh and looks at the nodes; a wrong sharing of a node between elements shows only on particular arrangements of elements.",
 [L+'sf/PolyShapeFunction.inl',L+'mesh/Mesh.inl'],[('PolyShapePolicy::prepareMesh',L+'sf/PolyShapeFunction.inl')],None,['nodes of elements and edges, vertices of the mesh'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
