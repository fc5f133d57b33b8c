#include "lin.h"
template <class T> struct cplx { static const bool v = false; }; template <class T> struct cplx<std::complex<T> > { static const bool v = true; };
template <class T, class M> static void all() {
	for (int k = 0; k < H::N(150); k++) {
		size_t n = Sz<M>::n(6); NM<T> g = rlower<T>(n, false, k % 3 ? 100 : 40), a = nmul(g, nc(nt(g))); if (k % 5 == 0) { a = rgood<T>(n, false, k % 2 ? 30 : 100); for (size_t i = 0; i < n; i++) { a(i, i) = T(n + 1.0 + H::ri(0, 5)); for (size_t j = 0; j < i; j++) a(i, j) = cj(a(j, i)); } } if (k % 11 == 0) { a = neye<T>(n); for (size_t i = 0; i < n; i++) a(i, i) = T(H::ri(1, 9)); }
		const M A = fill(Mk<M>::z(n, n), a); M L = fill(Mk<M>::z(n, n), k % 4 ? randm<T>(n, n, 70) : NM<T>(n, n)); H::CASE("A=%s", a.s().c_str());
		CHECK(quiet([&] { LU::serial::cholesky(A, L); }), "rejected"); CHECK(eqm<T>(A, a), "the input changed"); NM<T> l = get<T>(L); CHECK(l.r == n && l.c == n, "shape of the factor");
		for (size_t i = 0; i < n; i++) { CHECK(std::real(l(i, i)) > 0 && std::abs(std::imag(std::complex<double>(l(i, i)))) <= tol<T>() * (1 + nmax(a)), "diagonal entry %zu is %s", i, H::str(l(i, i)).c_str()); for (size_t j = i + 1; j < n; j++) CHECK(l(i, j) == T(0), "L=%s is not lower triangular", l.s().c_str()); }
		CHECK(nclose(nmul(l, nc(nt(l))), a, n * n), "L=%s gives LL*=%s", l.s().c_str(), nmul(l, nc(nt(l))).s().c_str());
		if (!cplx<T>::v) {	// an exactly vanishing or a negative pivot at a random step
			size_t z = H::ri(0, (int)n - 1); NM<T> d = NM<T>(n, n), b; for (size_t i = 0; i < n; i++) d(i, i) = T(i == z ? (k % 2 ? 0 : -H::ri(1, 3)) : H::ri(1, 3)); NM<T> q(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j <= i; j++) q(i, j) = T(i == j ? 1 : H::ri(-2, 2)); 
			for (size_t i = 0; i < n; i++) if (std::real(d(i, i)) > 0) d(i, i) = T(d(i, i) == T(2) ? 4 : d(i, i) == T(3) ? 16 : 1); // squares keep the arithmetic exact
			b = nmul(nmul(q, d), nt(q)); M B = fill(Mk<M>::z(n, n), b), K = Mk<M>::z(n, n); H::CASE("pivot %zu is %s: A=%s", z, H::str(d(z, z)).c_str(), b.s().c_str()); CHECK(throws<NotPositiveDefiniteException>([&] { LU::serial::cholesky(B, K); }), "not rejected"); CHECK(eqm<T>(B, b), "the input changed");
		}
	}
}
template <class T, template <class> class MM> static void dims() { typedef MM<T> M; for (int k = 0; k < 40; k++) { size_t n = H::ri(1, 4), m = H::ri(1, 4); if (m == n) m++; M N(n, m), L(n, n), A = fill(M(n, n), neye<T>(n)), K(m, n), J(n, m), I(m, m); H::CASE("%zu against %zu", n, m); CHECK(throws<NotSquareException>([&] { LU::serial::cholesky(N, L); }), "non-square not rejected"); CHECK(throws<InvalidOutputMatrixException>([&] { LU::serial::cholesky(A, K); }) && throws<InvalidOutputMatrixException>([&] { LU::serial::cholesky(A, J); }) && throws<InvalidOutputMatrixException>([&] { LU::serial::cholesky(A, I); }), "output not rejected"); } }
typedef std::complex<double> Z;
TEST(dense) { all<double, DenseMatrix<double> >(); all<Z, DenseMatrix<Z> >(); all<float, DenseMatrix<float> >(); }
TEST(sparse) { all<double, SparseMatrix<double> >(); all<Z, SparseMatrix<Z> >(); }
TEST(fixed) { all<double, FixedMatrix<double, 1, 1> >(); all<double, FixedMatrix<double, 3, 3> >(); all<double, FixedMatrix<double, 5, 5> >(); all<Z, FixedMatrix<Z, 3, 3> >(); }
TEST(shape) { dims<double, DenseMatrix>(); dims<double, SparseMatrix>(); dims<Z, DenseMatrix>(); }
HARNESS_MAIN
