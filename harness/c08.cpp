#include "common.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixConstructor.h"
#include "Vector.h"
using namespace NS;
#define EQ(m, r, nm) CHECK(eqm<T>(m, r), "%s gives %s expected %s", nm, strm<T>(m).c_str(), (r).s().c_str())
template <class T, template <class> class M> static M<T> fillm(const NM<T>& r) { M<T> m(r.r, r.c); for (size_t i = 0; i < r.r; i++) for (size_t j = 0; j < r.c; j++) if (r(i, j) != T(0)) m.set(i, j, r(i, j)); return m; }
static double nbinom(int n, int k) { double r = 1; for (int i = 1; i <= k; i++) r = r * (n - k + i) / i; return std::floor(r + 0.5); }
template <class T> static bool isz(const SparseMatrix<T>& m) { for (auto it = m.begin(); it != m.end(); ++it) if (*it == T(0)) return true; return false; }
template <class T> static bool isz(const DenseMatrix<T>&) { return false; }
template <class T, template <class> class M> static void one(size_t R, size_t C) {
	H::CASE("eye %zux%zu", R, C);
	NM<T> e(R, C); for (size_t i = 0; i < std::min(R, C); i++) e(i, i) = T(1);
	auto E = Construct::eye<M, T>(R, C); EQ(E, e, "eye"); CHECK(!isz(E), "eye stores zeros");
	NM<T> a = randm<T>(R, C, H::ri(0, 1) ? 60 : 100); M<T> A = fillm<T, M>(a);
	H::CASE("A=%s", a.s().c_str());
	auto d = Construct::diag<M, T>(A); size_t n = std::min(R, C); CHECK(d.size() == n, "diag(matrix) length %zu", d.size());
	for (size_t i = 0; i < n && i < d.size(); i++) CHECK(d.linear_at(i) == a(i, i), "diag(matrix)[%zu]", i);
	DynamicVector<T> v(R); for (size_t i = 0; i < R; i++) v.linear_set(i, H::ri(0, 3) ? H::Val<T>::r(-5, 5) : T(0));
	NM<T> dv(R, R); for (size_t i = 0; i < R; i++) dv(i, i) = v.linear_at(i);
	auto D = Construct::diag<M, T>(v); EQ(D, dv, "diag(vector)"); CHECK(!isz(D), "diag stores zeros");
	for (int k = -(int)R - 2; k <= (int)C + 2; k++) {
		NM<T> l(R, C), u(R, C);
		for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++) { if ((long)j <= (long)i + k) l(i, j) = a(i, j); if ((long)j >= (long)i + k) u(i, j) = a(i, j); }
		H::CASE("A=%s k=%d", a.s().c_str(), k);
		auto L = Construct::tril<M, T>(A, k); auto U = Construct::triu<M, T>(A, k);
		EQ(L, l, "tril"); EQ(U, u, "triu"); CHECK(!isz(L) && !isz(U), "tril/triu stores zeros");
		if (k == 0) { EQ((Construct::tril<M, T>(A)), l, "tril default"); EQ((Construct::triu<M, T>(A)), u, "triu default"); }
	}
	EQ(A, a, "input afterwards");
}
template <class T, template <class> class M> static void all() {
	for (size_t R = 1; R <= 5; R++) for (size_t C = 1; C <= 5; C++) for (int k = 0; k < H::N(3); k++) one<T, M>(R, C);
	for (int k = 0; k < H::N(4); k++) one<T, M>(H::ri(1, 20), H::ri(1, 20));
	for (size_t n = 1; n <= 12; n++) {
		H::CASE("hilbert %zu", n);
		NM<T> h(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) h(i, j) = T(1.0 / (i + j + 1));
		EQ((Construct::hilbert<M, T>(n)), h, "hilbert");
	}
}
TEST(dense_double) { all<double, DenseMatrix>(); }
TEST(dense_float) { all<float, DenseMatrix>(); }
TEST(dense_complex) { all<std::complex<double>, DenseMatrix>(); }
TEST(sparse_double) { all<double, SparseMatrix>(); }
TEST(sparse_complex) { all<std::complex<float>, SparseMatrix>(); }
TEST(offsets_at_the_edge_of_int) {
	typedef double T; NM<T> a = randm<T>(3, 4, 100, 1, 4); DenseMatrix<T> A = fillm<T, DenseMatrix>(a); SparseMatrix<T> S = fillm<T, SparseMatrix>(a); NM<T> z(3, 4);
	for (int k : {INT32_MIN, INT32_MIN + 1, -100000, 100000, INT32_MAX - 1, INT32_MAX}) {
		H::CASE("A=%s k=%d", a.s().c_str(), k);
		EQ((Construct::tril<DenseMatrix, T>(A, k)), (k < 0 ? z : a), "tril"); EQ((Construct::triu<DenseMatrix, T>(A, k)), (k < 0 ? a : z), "triu");
		EQ((Construct::tril<SparseMatrix, T>(S, k)), (k < 0 ? z : a), "tril"); EQ((Construct::triu<SparseMatrix, T>(S, k)), (k < 0 ? a : z), "triu");
	}
}
TEST(inv_hilbert) {
	typedef double T;
	for (size_t n = 1; n <= 9; n++) {
		H::CASE("inverse hilbert %zu", n);
		NM<T> h(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) h(i, j) = ((i + j) % 2 ? -1. : 1.) * (i + j + 1) * nbinom(n + i, n - j - 1) * nbinom(n + j, n - i - 1) * nbinom(i + j, i) * nbinom(i + j, i);
		auto m = Construct::inv_hilbert<DenseMatrix, T>(n); CHECK(eqm<T>(m, h, 1e-12), "inv_hilbert gives %s expected %s", strm<T>(m).c_str(), h.s().c_str());
		auto s = Construct::inv_hilbert<SparseMatrix, T>(n); CHECK(eqm<T>(s, h, 1e-12), "sparse inv_hilbert gives %s expected %s", strm<T>(s).c_str(), h.s().c_str());
	}
}
template <class T, Dimension R, Dimension C> static void feye() { NM<T> e(R, C); for (size_t i = 0; i < std::min(R, C); i++) e(i, i) = T(1); H::CASE("fixed eye %zux%zu", (size_t)R, (size_t)C); auto m = Construct::eye<T, R, C>(); EQ(m, e, "fixed eye"); }
TEST(fixed_eye) { feye<double, 1, 1>(); feye<double, 2, 2>(); feye<double, 2, 3>(); feye<double, 3, 2>(); feye<double, 4, 4>(); feye<std::complex<double>, 3, 3>(); feye<float, 5, 2>(); }
HARNESS_MAIN
