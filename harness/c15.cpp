#include "lin.h"
template <class T, class M> static void det(const NM<T>& a, const char* what, double scale = 1) {
	const M A = fill(Mk<M>::z(a.r, a.c), a); H::CASE("%s A=%s", what, a.s().c_str()); T d = Operations::determinant(A); auto e = ndet(a); double s = 1; for (size_t i = 0; i < a.r; i++) { double r = 0; for (size_t j = 0; j < a.r; j++) r += std::abs(a(i, j)); s *= r; }
	CHECK(std::abs((typename wide<T>::t)d - e) <= tol<T>() * a.r * (s * 0.01 + std::abs(e)) * scale + tol<T>() * 1e-6, "determinant %s expected %s", H::str(d).c_str(), H::str((T)e).c_str()); CHECK(eqm<T>(A, a), "the input changed");
}
template <class T, class M> static void all() {
	for (int k = 0; k < H::N(150); k++) {
		size_t n = IsFixed<M>::v ? Sz<M>::n(6) : H::ri(1, 7);
		NM<T> a = randm<T>(n, n, k % 3 ? 90 : 45, -4, 4); det<T, M>(a, "integers"); a = rgood<T>(n, k % 2, k % 3 ? 100 : 40); det<T, M>(a, "well conditioned");
		if (n > 1) { size_t i = H::ri(0, (int)n - 1), j = (i + 1 + H::ri(0, (int)n - 2)) % n; NM<T> b = a; for (size_t c = 0; c < n; c++) std::swap(b(i, c), b(j, c)); M A = fill(Mk<M>::z(n, n), a), B = fill(Mk<M>::z(n, n), b); T x = Operations::determinant(A), y = Operations::determinant(B); H::CASE("rows %zu and %zu exchanged: A=%s", i, j, a.s().c_str()); CHECK(std::abs(x + y) <= tol<T>() * n * (1 + std::abs(x)), "determinants %s and %s", H::str(x).c_str(), H::str(y).c_str());
			b = a; T f = T(H::ri(-3, 3)); for (size_t c = 0; c < n; c++) b(i, c) = a(j, c) * f; M C = fill(Mk<M>::z(n, n), b); H::CASE("row %zu is a multiple of row %zu: A=%s", i, j, b.s().c_str()); T z = Operations::determinant(C); double sc = 1; for (size_t r = 0; r < n; r++) { double q = 0; for (size_t c = 0; c < n; c++) q += std::abs(b(r, c)); sc *= 1 + q; } CHECK(std::abs(z) <= tol<T>() * sc * 1e-3, "determinant of a singular matrix is %s", H::str(z).c_str());
			b = a; for (size_t c = 0; c < n; c++) b(k % 2 ? i : c, k % 2 ? c : i) = T(0); det<T, M>(b, "zero row or column"); }
		{ NM<T> l = rlower<T>(n, false); det<T, M>(l, "lower triangular"); det<T, M>(nt(l), "upper triangular"); T p = T(1); for (size_t i = 0; i < n; i++) p *= l(i, i); H::CASE("triangular A=%s", l.s().c_str()); M X = fill(Mk<M>::z(n, n), nt(l)); T d = Operations::determinant(X); CHECK(std::abs(d - p) <= tol<T>() * n * (1 + std::abs(p)), "determinant %s, product of the diagonal %s", H::str(d).c_str(), H::str(p).c_str()); }
		{ NM<T> b(n, n); for (size_t i = 0; i < n; i++) b(i, i) = T(1); for (size_t i = n; i-- > 1;) { size_t j = H::ri(0, (int)i); for (size_t c = 0; c < n; c++) std::swap(b(i, c), b(j, c)); } det<T, M>(b, "permutation"); for (size_t i = 0; i < n; i++) { T f = T(H::ri(1, 5)); for (size_t c = 0; c < n; c++) b(i, c) *= f; } det<T, M>(b, "scaled permutation"); }
		det<T, M>(NM<T>(n, n), "zero"); det<T, M>(neye<T>(n), "identity"); { NM<T> b = neye<T>(n); T f = T(H::ri(1, 9)) * T(0.001); if (n < 4) { for (auto& x : b.d) x *= f; det<T, M>(b, "small multiple of the identity", 10); } }
	}
}
template <class T> static void shape() { for (size_t r = 1; r < 5; r++) for (size_t c = 1; c < 5; c++) if (r != c) { NM<T> a = randm<T>(r, c, 90); DenseMatrix<T> A = fill(DenseMatrix<T>(r, c), a); SparseMatrix<T> B = fill(SparseMatrix<T>(r, c), a); H::CASE("A=%s", a.s().c_str()); CHECK(Operations::determinant(A) == T(0) && Operations::determinant(B) == T(0), "a non-square matrix has a determinant"); CHECK(eqm<T>(A, a) && eqm<T>(B, a), "the input changed"); }
	FixedMatrix<T, 2, 3> f; f.set(0, 0, T(1)); f.set(1, 1, T(1)); H::CASE("fixed 2x3"); CHECK(Operations::determinant(f) == T(0), "a non-square matrix has a determinant"); }
typedef std::complex<double> Z;
TEST(dense) { all<double, DenseMatrix<double> >(); }
TEST(dense_complex) { all<Z, DenseMatrix<Z> >(); }
TEST(sparse) { all<double, SparseMatrix<double> >(); all<Z, SparseMatrix<Z> >(); }
TEST(fixed) { all<double, FixedMatrix<double, 1, 1> >(); all<double, FixedMatrix<double, 2, 2> >(); all<double, FixedMatrix<double, 3, 3> >(); all<double, FixedMatrix<double, 4, 4> >(); all<double, FixedMatrix<double, 6, 6> >(); all<Z, FixedMatrix<Z, 3, 3> >(); }
TEST(shapes) { shape<double>(); shape<Z>(); }
// every 0/1 matrix of order three
TEST(binary) { for (int m = 0; m < 512; m++) { NM<double> a(3, 3); for (int i = 0; i < 9; i++) a.d[i] = m >> i & 1; det<double, DenseMatrix<double> >(a, "binary"); det<double, SparseMatrix<double> >(a, "binary sparse"); det<double, FixedMatrix<double, 3, 3> >(a, "binary fixed"); } }
HARNESS_MAIN
