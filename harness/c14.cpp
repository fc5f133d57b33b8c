#include "lin.h"
template <class T> static void ilu() {
	typedef SparseMatrix<T> S;
	for (int k = 0; k < H::N(250); k++) {
		size_t n = H::ri(0, 20) ? H::ri(1, 8) : H::ri(9, 16); int f = k % 4 == 0 ? 100 : k % 4 == 1 ? 15 : 40; NM<T> a(n, n);
		if (k % 9 == 0) for (size_t i = 0; i < n; i++) { a(i, i) = T(3); if (i + 1 < n) a(i, i + 1) = T(-1); if (i) a(i, i - 1) = T(-1); if (i + 2 < n && k % 2) a(i, n - 1) = T(1); } else a = rgood<T>(n, false, f);
		S A = fill(S(n, n), a); std::vector<char> pat(n * n, 0); for (auto it = A.begin(); it != A.end(); ++it) pat[it.row() * n + it.column()] = 1; const S& cA = A;
		S L(H::ri(1, 5), H::ri(1, 5)), U(n, n); if (k % 2) { L = fill(S(n, n), randm<T>(n, n, 60)); U = L; } H::CASE("A=%s", a.s().c_str());
		CHECK(quiet([&] { LU::serial::ilu0(cA, L, U); }), "rejected"); CHECK(eqm<T>(A, a), "the input changed"); NM<T> l = get<T>(L), u = get<T>(U); CHECK(l.r == n && l.c == n && u.r == n && u.c == n, "shape of the factors");
		for (auto it = L.begin(); it != L.end(); ++it) CHECK(it.row() == it.column() || (it.column() < it.row() && pat[it.row() * n + it.column()]), "L has an entry at %zu,%zu", it.row(), it.column());
		for (auto it = U.begin(); it != U.end(); ++it) CHECK(it.column() >= it.row() && pat[it.row() * n + it.column()], "U has an entry at %zu,%zu", it.row(), it.column());
		NM<T> p = nmul(l, u); double sc = tol<T>() * n * (1 + nmax(u)) * (1 + nmax(l)) * (1 + nmax(a));
		for (size_t i = 0; i < n; i++) { CHECK(l(i, i) == T(1), "unit diagonal"); for (size_t j = 0; j < n; j++) { CHECK(i >= j || l(i, j) == T(0), "L is not lower triangular"); CHECK(i <= j || u(i, j) == T(0), "U is not upper triangular"); if (pat[i * n + j]) CHECK(std::abs(p(i, j) - a(i, j)) <= sc, "(LU)[%zu,%zu] is %s expected %s", i, j, H::str(p(i, j)).c_str(), H::str(a(i, j)).c_str()); } }
		if (n > 1) {	// a vanishing pivot that is used: row z of the factor has a zero diagonal, a later row has an entry in column z
			size_t z = H::ri(0, (int)n - 2); NM<T> b(n, n); for (size_t i = 0; i < n; i++) b(i, i) = T(i == z ? 0 : H::ri(1, 4)); size_t w = H::ri((int)z + 1, (int)n - 1); b(w, z) = T(H::ri(1, 5)); for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) if (H::ri(0, 1)) b(i, j) = rv<T>(); S B = fill(S(n, n), b), X(n, n), Y(n, n); H::CASE("zero pivot %zu: A=%s", z, b.s().c_str()); CHECK(throws<SingularException>([&] { LU::serial::ilu0(B, X, Y); }), "not rejected"); CHECK(eqm<T>(B, b), "the input changed");
		}
		{ size_t m = n + H::ri(1, 2); S B = fill(S(n, m), randm<T>(n, m, 60)), C = fill(S(m, n), randm<T>(m, n, 60)), X(n, n), Y(n, n); H::CASE("%zu x %zu", n, m); CHECK(throws<NotSquareException>([&] { LU::serial::ilu0(B, X, Y); }) && throws<NotSquareException>([&] { LU::serial::ilu0(C, X, Y); }), "non-square not rejected"); }
	}
}
template <class T, class M> static void ainv() {
	for (int k = 0; k < H::N(150); k++) {
		size_t n = Sz<M>::n(6); int f = k % 3 ? 100 : 35; NM<T> l = rlower<T>(n, true, f), u = nt(rlower<T>(n, k % 5 == 0, f)); const M L = fill(Mk<M>::z(n, n), l), U = fill(Mk<M>::z(n, n), u); M IL = fill(Mk<M>::z(n, n), k % 2 ? randm<T>(n, n, 70) : NM<T>(n, n)), IU = fill(Mk<M>::z(n, n), k % 2 ? randm<T>(n, n, 70) : NM<T>(n, n));
		H::CASE("L=%s U=%s", l.s().c_str(), u.s().c_str()); CHECK(quiet([&] { LU::serial::ainv_lu(L, U, IL, IU); }), "rejected"); CHECK(eqm<T>(L, l) && eqm<T>(U, u), "a factor changed"); NM<T> i = get<T>(IL), j = get<T>(IU);
		double s1 = n * (1 + nmax(i)) * (1 + nmax(l)), s2 = n * (1 + nmax(j)) * (1 + nmax(u)); CHECK(nclose(nmul(i, l), neye<T>(n), s1) && nclose(nmul(l, i), neye<T>(n), s1), "inverse of L is %s", i.s().c_str()); CHECK(nclose(nmul(j, u), neye<T>(n), s2) && nclose(nmul(u, j), neye<T>(n), s2), "inverse of U is %s", j.s().c_str());
		{ NM<T> z = u; size_t q = H::ri(0, (int)n - 1); z(q, q) = T(0); M Zm = fill(Mk<M>::z(n, n), z); H::CASE("L=%s U=%s", l.s().c_str(), z.s().c_str()); CHECK(throws<SingularException>([&] { LU::serial::ainv_lu(L, Zm, IL, IU); }), "zero diagonal not rejected"); }
	}
}
template <class T, template <class> class MM> static void dims() { typedef MM<T> M; for (int k = 0; k < 40; k++) { size_t n = H::ri(1, 4), m = H::ri(1, 4); if (m == n) m++; M N(n, m), E = fill(M(n, n), neye<T>(n)), F = fill(M(m, m), neye<T>(m)), X(n, n), Y(n, n), B(n, m), G(m, m); H::CASE("%zu against %zu", n, m); CHECK(throws<NotSquareException>([&] { LU::serial::ainv_lu(N, E, X, Y); }) && throws<NotSquareException>([&] { LU::serial::ainv_lu(E, N, X, Y); }) && throws<NotSquareException>([&] { LU::serial::ainv_lu(E, E, B, Y); }) && throws<NotSquareException>([&] { LU::serial::ainv_lu(E, E, X, B); }), "non-square not rejected"); CHECK(throws<MatrixSizeMismatchException>([&] { LU::serial::ainv_lu(E, F, X, Y); }) && throws<MatrixSizeMismatchException>([&] { LU::serial::ainv_lu(E, E, G, Y); }) && throws<MatrixSizeMismatchException>([&] { LU::serial::ainv_lu(E, E, X, G); }), "sizes not rejected"); } }
typedef std::complex<double> Z;
TEST(ilu_double) { ilu<double>(); }
TEST(ilu_complex) { ilu<Z>(); }
TEST(ilu_float) { ilu<float>(); }
TEST(ainv_dense) { ainv<double, DenseMatrix<double> >(); ainv<Z, DenseMatrix<Z> >(); }
TEST(ainv_sparse) { ainv<double, SparseMatrix<double> >(); ainv<Z, SparseMatrix<Z> >(); ainv<float, SparseMatrix<float> >(); }
TEST(ainv_fixed) { ainv<double, FixedMatrix<double, 1, 1> >(); ainv<double, FixedMatrix<double, 3, 3> >(); }
TEST(shape) { dims<double, DenseMatrix>(); dims<double, SparseMatrix>(); }
// every pattern of order three with a full diagonal
TEST(patterns) { for (int m = 0; m < 64; m++) { NM<double> a(3, 3); int b = 0; for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) if (i == j) a(i, j) = 5 + H::ri(0, 3); else if (m >> b++ & 1) a(i, j) = H::ri(1, 2); SparseMatrix<double> A = fill(SparseMatrix<double>(3, 3), a), L(3, 3), U(3, 3); H::CASE("A=%s", a.s().c_str()); LU::serial::ilu0(A, L, U); NM<double> p = nmul(get<double>(L), get<double>(U)); for (size_t i = 0; i < 3; i++) for (size_t j = 0; j < 3; j++) if (a(i, j) != 0) CHECK(H::close(p(i, j), a(i, j)), "(LU)[%zu,%zu] is %g", i, j, p(i, j)); } }
HARNESS_MAIN
