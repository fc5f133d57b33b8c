"""Which contracts decide which property, and the replay harness of each."""
SM = 'SparseMatrix<double>::'
CLAIMS = {}
NA = {}


def claim(pid, units, harness, note, bound, **kw):
    CLAIMS[pid] = dict(units=units, harness=harness, note=note, bound=bound, **kw)


claim('C01', [('sparse', 'sparse', [SM + x for x in (
    'internal_at*', 'set_at*', 'remove_at*', 'row_entry_count*', 'at(*', 'set(u64,u64,real&)', 'linear_at*', 'linear_set*', 'has(*', '(ctor)*', '(dtor)*',
    'columns*', 'rows*', 'size*', 'filled_count*', 'empty*', 'has_zero*', 'swap*')])],
    'c01.cpp', 'every storage operation proved against the abstract zero-default map for all dimensions, patterns and values (double instantiation)',
    'matrices up to 40x40, random operation sequences, all 3x3 patterns; double, float, complex')
claim('C02', [('sparse', 'sparse', ['SparseMatrixIterator*', 'SparseMatrixRowIterator*', 'SparseMatrixColumnIterator*'] + [SM + x for x in (
    'begin*', 'end*', 'cbegin*', 'cend*', 'row_begin*', 'row_end*', 'row_cbegin*', 'row_cend*', 'column_*begin*', 'column_*end*', 'erase*', 'set(iterator*')]),
    ('sparse', 'sparse,sparse3', [SM + 'row_filled_count*', SM + 'column_filled_count*'])],
    'c02.cpp', 'every iterator operation proved against the abstract sequence of stored cells in row-major order (double instantiation)',
    'all 3x3, 2x4, 4x2 patterns, random up to 9x9, write/erase at every stored cell; double, float, complex')
claim('C03', [('sparse', 'sparse,vector,sparse2', [SM + x for x in ('transpose*', 'conjugate*', 'adjugate*', 'trace*', 'mul*', 'operator+=*', 'operator-=*', 'operator[*]=*')] + [
    f'operator{o}(SparseMatrix<double>&*' for o in ('+', '-', '[*]', '==', '!=')] + ['operator[*](real,SparseMatrix*'])],
    'c03.cpp', 'every arithmetic operation, product and comparison proved entry by entry for all dimensions and stored patterns, including self-combination (double instantiation)',
    'all 2x2 pattern pairs, all 3x3 patterns, random up to 6x6; double, float, complex')
BM = ['BaseMatrix<*']
claim('C04', [('dense', 'dense,vector', ['MatrixIterator<*', 'MatrixRowIterator<*', 'MatrixColumnIterator<*', '*Matrix<*::(ctor)*', '*Matrix<*::swap*'] + ['BaseMatrix<*::' + x for x in (
    'rows*', 'columns*', 'size*', 'at(*', 'set(*', 'linear_*', 'has(*', 'begin*', 'end*', 'cbegin*', 'cend*', 'row_*', 'column_*', 'erase*')])],
    'c04.cpp', 'storage and iterators proved for all dimensions (dense double/complex) and for fixed 2x3 double, 2x2 complex', 'dense up to 41 cells per axis, 7 fixed shapes; double, float, complex; initializer lists are covered by the bounded part only')
claim('C05', [('dense', 'dense,vector', ['*Matrix<*::operator[+*-]=*', '*Matrix<*::mul*', '*Matrix<*::transpose*', '*Matrix<*::conjugate*', '*Matrix<*::adjugate*', '*Matrix<*::trace*', 'operator*Matrix*'])],
    'c05.cpp', 'arithmetic, products and comparison proved entry by entry for all dimensions (dense double/complex) and for fixed 2x3 double, 2x2 complex', 'dense up to 6x6, 7 fixed shapes; double, float, complex')
claim('C06', [('vector', 'vector', ['*::operator*', 'operator*', '*::dot*', '*::mag*', '*::normalized*', '*::do_reciprocal*', '*::fill*', '*::has(*', '*::set*', '*::at*', '*::linear_*', '*::swap*', '*::size*', '*::(ctor)*', '*::resize*', '*::begin*', '*::end*', 'CountableSetIterator*'])],
    'c06.cpp', 'every operation proved component by component for all lengths (dynamic double, complex) and for length 3 fixed double', 'lengths 1..7 and 33; double, float, complex')
claim('C07', [('vector', 'vector', ['*::sum*', '*::avg*', '*::max*', '*::min*', '*::has[NIZ]*']),
    ('dense', 'dense,vector', ['BaseMatrix<*::' + x for x in ('sum*', 'avg*', 'max*', 'min*', 'has_zero*', 'has_nan*', 'has_inf*', 'empty*')]),
    ('sparse', 'sparse,vector,sparse3', [SM + x for x in ('sum*', 'avg*', 'max*', 'min*', 'has_zero*', 'has_nan*', 'has_inf*', 'empty*')])],
    'c07.cpp', 'every reduction and test proved against its quantified definition for all sizes', 'up to 4x4 random, special values at each position, all 2x3 sparse patterns')
claim('C08', [('construct', 'construct', ['eye(*', 'diag(*', 'tril(*', 'triu(*', 'hilbert(*'])],
    'c08.cpp', 'identity, diagonal, triangular-part and Hilbert constructors proved entry by entry for all sizes and offsets (dense double/complex, sparse double, fixed 2x2, 2x3)',
    'sizes up to 20x20 with every offset, offsets at the ends of int; inverse Hilbert up to order 9 (not under contract); double, float, complex')
claim('C09', [('construct', 'construct', ['matrixIs*'])],
    'c09.cpp', 'every predicate proved equivalent to its quantified definition for all sizes (dense double/complex, sparse double, fixed 2x2 double/complex)',
    'matrices satisfying each definition and their one-entry neighbours up to 5x5, all 0/1 3x3 patterns; double, float, complex')
claim('C10', [('construct', 'construct', ['toSparseMatrix*', 'toDenseMatrix*'])],
    'c10.cpp', 'conversions proved entry by entry for all sizes and patterns (dense to sparse, fixed 2x3 to sparse, sparse to dense)',
    'all 3x3 and 2x3 patterns, random up to 25x25, signed, tiny and complex values; double, float, complex')
claim('C19', [('utils', 'utils', ['t_min*', 't_max*', 'sign_pow*', 'factorial*', 'binom*'])],
    'c19.cpp', 'every helper proved equal to its definition for all arguments (machine integers as mathematical integers); recursion proved to terminate',
    'factorials and binomial coefficients while representable in int, unsigned, long, size_t; real upper arguments from -7.75 to 40, k up to 25')
claim('C20', [('simplex', 'simplex', ['Simplex<double,2>::' + x for x in ('(ctor)*', 'operator*', 'prepare*', 'unitVolume*', 'volume*', 'center*', 'outerRadius*', 'diameter*', 'toLocal*', 'toGlobal*', 'gradient*', 'faceCenter*', 'matrix*', 'inverseMatrix*', 'determinant*')])],
    'c20.cpp', 'every geometric quantity proved from the vertices for all non-degenerate triangles over the reals', 'random well-shaped triangles of size 1e-8 to 1e6 at several offsets, axis-parallel and extreme shapes in every vertex order; double, float')
claim('C28', [('simplex', 'simplex', ['normal(*', 'determinant(Fixed*', 'Simplex<double,2>::faceNormal*'])],
    'c28.cpp', 'normals in two, three and four dimensions and the outward face normal of triangles proved over the reals, with the pivot threshold of the determinant as precondition', 'random and axis-parallel vectors of size 1e-6 to 1e6 in the plane and in space, integer vectors in four and five dimensions, random and extreme triangles in every vertex order; double, float')
claim('C24', [('shape', 'shape', ['PolyShapePolicy<*'])],
    'c24.cpp', 'all seven combinations of dimension and order, every component: value, first and second derivatives proved equal to the polynomial that interpolates the nodes (computed from the node positions, not from the code) and its derivatives, for all points and weights, over the reals', 'nodes, random points and weights; all seven combinations; double, float; policy and shape function class')
claim('C25', [('quad', 'quad', ['GaussLegendreQuadratureFactory<*', 'Quadrature<*'])],
    'c25.cpp', 'all six rules: weights, points and exactness on every monomial up to the documented degree proved from the constants in the code (to 1e-14, the constants are decimals); evaluation proved for any integrand and any number of points', 'all six rules, every monomial up to the degree, random polynomials and integrands, start values; double, float, complex integrand',
    assumptions=['the integrand is an arbitrary function of the point (and index): modelled as an uninterpreted function'])

claim('C11', [('lin', 'lin', ['doolittle(*'])],
    'c11.cpp', 'row-pivoted factorisation proved for all sizes (dense double, the fixed shapes share the code of the base class; sparse double): P A = L U, L unit lower triangular, U upper triangular, P the permutation matrix of the row table, exchange count with the parity of the permutation, SingularException only when every pivot candidate of a column vanishes',
    'dense and sparse up to 8x8, special and random matrices, all 3x3 matrices over {-1,0,1}; double, float, complex')
claim('C12', [('lin', 'lin', ['solve_lu(*', 'inverse(*Matrix<*'])],
    'c12.cpp', 'triangular solves and the three inverse overloads proved for all sizes (dense and sparse double): L(U x)=b, L(U X)=P, A*inverse(A)=I, exact singularity condition of the solves',
    'dense and sparse up to 8x8, rectangular and singular inputs; double, float, complex')
claim('C13', [('lin', 'lin', ['cholesky(*'])],
    'c13.cpp', 'L lower triangular with positive diagonal and L*transpose(L)=A for every accepted matrix, NotPositiveDefiniteException only at a non-positive pivot (dense and sparse double, all sizes)',
    'positive definite, semidefinite and indefinite matrices up to 8x8; double, float, complex Hermitian')
claim('C15', [('lin', 'lin', ['determinant(*'])],
    'c15.cpp', 'determinant of dense and sparse matrices of every size proved through the contract of the factorisation and the determinant theorem, 2x2 and 3x3 fixed matrices against the explicit formula',
    'integer matrices up to 6x6 against exact arithmetic, singular and scaled inputs; double, float, complex')
claim('C14', [('lin', 'lin', ['ainv_lu(*']), ('lin', 'lin,ilu', ['ilu0(*'])],
    'c14.cpp', 'ilu0: unit lower and upper factor, entries only where the input has entries, product equal to the input at every stored place, no vanishing pivot used and singularity only for one, for all sizes and patterns (sparse double); ainv_lu: right inverses of both triangular factors and the exact singularity condition for all sizes (dense and sparse double)',
    'ilu0 on all 3x3 patterns with a full diagonal and random banded/5-point patterns up to 8x8 against an entry-by-entry oracle; ainv_lu on dense and sparse factors up to 8x8; double, float, complex')
claim('C16', [('lin', 'lin', ['jacobi(*,Vector<*', 'sor(*'])],
    'c16.cpp', 'each step of both solvers proved to compute the documented iterate from the previous one, the reported step count, the stopping rule and the zero-diagonal exception, for all sizes and any number of steps (dense and sparse double)',
    'dense and sparse diagonally dominant systems up to 8x8 with several relaxation factors, start values and step limits; zero diagonals; double, float, complex',
    assumptions=['MatrixHasZeroInDiagException is thrown only when the change of a step is not finite (isfinite is an uninterpreted test over the reals)'])
claim('C17', [('lin', 'lin', ['cg(*', 'pcg(*', 'jacobi(*Matrix<double>&,*Matrix<double>&)'])],
    'c17.cpp', 'residual invariant, orthogonality and conjugacy of consecutive directions, stopping rule and step count proved for every symmetric matrix (and symmetric preconditioner) of every size (dense and sparse double), and the diagonal preconditioner entry by entry',
    'symmetric positive definite systems up to 8x8 with several start values, limits and preconditioners; double, float',
    assumptions=['the matrix (and the preconditioner) is symmetric, as documented', 'no breakdown: (A p).p != 0 (positive definite matrix, p != 0), and r.Cr != 0 in pcg before the last step'])
claim('C18', [('lin', 'lin', ['permut*', 'inverse_permutation*', 'r_cuthill*', 'cuthill*', 'find_pair*', 'Vector<unsigned long*', 'CountableSet<unsigned long*'])],
    'c18.cpp', 'permutation matrices, inverse permutations and permuting a vector or sparse matrix proved entry by entry for all sizes; the queue-based ordering is a permutation of the indices and terminates for every pattern (placed and remaining nodes partition the index range), the reversed ordering is its reverse',
    'orderings of random, banded, disconnected and isolated-node graphs up to 60 nodes, all 3x3 patterns; permutations up to 8 elements; double, complex')
ME = 'Mesh<double,2>::'
claim('C21', [('mesh', 'mesh', [ME + x for x in ('vertex(*', 'vertices*', 'element(*', 'elements*', 'edge(*', 'edges*', 'setVertex*', 'setElement*', 'reserve*', 'addVertex*', 'addElement*', 'prepare*', 'setupBoundaries*', 'setupNeighbors*', 'validate*')]
    + ['MeshVertex<*', 'MeshElement<*', 'MeshEdge<*'])],
    'c21.cpp', 'adding vertices and elements (index, coordinates copied, registered exactly once, frame), neighbour setup (one edge per face, linked both ways, no face with three elements accepted), boundary flags and the exact acceptance condition of validate proved on the heap model for all meshes',
    'random triangulations, fans, strips and hand-made damage of every link; 2D double and float',
    assumptions=['the vertex, element and edge objects handed to a mesh are live and distinct objects of the mesh'])
claim('C23', [('mesh', 'mesh', [ME + x for x in ('clear*', '(ctor)*', 'move (ctor)*', '(dtor)*', 'operator=*', 'move operator=*')])],
    'c23.cpp', 'reference count, transfer, release exactly once at the last handle (never earlier), self assignment and clear proved for every mesh on the heap model, so for every sequence of these operations by the invariant they keep',
    'random sequences of copy/move/assign/clear over a pool of meshes under ASAN/UBSAN with an allocation balance')
claim('C22', [('mesh', 'mesh', [ME + x for x in ('addVertex*', 'addElement*')] + ['HyperCube<*'])],
    'c22.cpp', 'generate proved for all subdivision counts and box sizes: number, grid position, index and boundary flag of every vertex, the corners of every element (each grid cell is cut along one diagonal into two triangles of the same orientation), no face shared by three elements, rejection of zero counts',
    'every pair of subdivision counts up to 7x7 and several box sizes')

claim('C27', [('loader', 'loader', ['MeshTriangleLoader<double>::*', 'MeshObjLoader<double,1,0>::load(*', 'MeshObjLoader<double,2,0>::load(*'])],
    'c27.cpp', 'both triangle texts and the shape conversion of the object loader (axes 1/0 and 2/0) proved for all texts and shapes: exact vertices, elements, registrations and links, the exact rejection conditions, no access outside the mesh',
    'generated well-formed meshes in many layouts (comments, blank lines, both index bases, extra columns), every kind of damage, random mutations and truncations, object files including invalid faces; double, float; files and strings',
    assumptions=['splitting a text into lines, white space and the reading of one number by the standard streams are uninterpreted functions of the characters', 'the external object file reader (tinyobj) is trusted in the proof; the harness runs it'])
claim('C26', [('vtk', 'vtk', ['VTKExporter<double,2>::write(*'])],
    'c26.cpp', 'the text written is proved, piece by piece, to be the document specified (recursive definition over vertices, elements, fields and their values) for every mesh, all fields and every combination of options; no side effect on mesh or fields',
    'exported files of generated meshes with every combination of the options and several field sets read back by a small XML reader and compared; double, float',
    assumptions=['the pieces written to the stream reach the file (stream and file system are trusted); how a number is printed is the standard library\'s', 'elements are prepared where their geometry is exported'])
claim('C29', [('dof', 'dof', ['PolyShapePolicy<double,2,1>::prepareMesh(*', 'PolyShapePolicy<double,2,2>::prepareMesh(*']), ('mesh', 'mesh', ['Mesh<double,2>::addVertex(*', 'MeshVertex<double,2>::(ctor)*'])],
    'c29.cpp', 'prepareMesh proved for orders 1 and 2 and every mesh: the nodes of every element and edge, one new vertex per edge at its middle with flags, index and registrations in order, frame of everything else',
    'generated boxes, random parts of triangulated grids with shuffled elements and corners, the empty mesh; orders 1 and 2; double, float')
