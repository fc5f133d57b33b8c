#include "common.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixConstructor.h"
#include "matrix/MatrixCheck.h"
using namespace NS;
template <class T> T cj(T x) { return x; }
template <class T> std::complex<T> cj(std::complex<T> x) { return std::conj(x); }
template <class M, class T> M fill(M m, const NM<T>& r) { for (size_t i = 0; i < r.r; i++) for (size_t j = 0; j < r.c; j++) if (r(i, j) != T(0)) m.set(i, j, r(i, j)); return m; }
template <class T> NM<T> mul(const NM<T>& a, const NM<T>& b) { NM<T> r(a.r, b.c); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < b.c; j++) for (size_t k = 0; k < a.c; k++) r(i, j) += a(i, k) * b(k, j); return r; }
template <class T> NM<T> tr(const NM<T>& a, bool c) { NM<T> r(a.c, a.r); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) r(j, i) = c ? cj(a(i, j)) : a(i, j); return r; }
template <class T> bool eye(const NM<T>& a) { for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) if (a(i, j) != T(i == j ? 1 : 0)) return false; return true; }
template <class T> NM<T> neg(NM<T> a) { for (auto& x : a.d) x = -x; return a; }
template <class T, class M> static void judge(const M& m, const NM<T>& a) {
	bool sq = a.r == a.c;
	H::CASE("A=%s", a.s().c_str());
	struct { const char* n; bool got, want; } t[] = {
		{"symmetric", Check::matrixIsSymmetric(m), sq && tr(a, false).d == a.d}, {"hermitian", Check::matrixIsHermitian(m), sq && tr(a, true).d == a.d},
		{"skew-symmetric", Check::matrixIsSkewSymmetric(m), sq && neg(tr(a, false)).d == a.d}, {"skew-hermitian", Check::matrixIsSkewHermitian(m), sq && neg(tr(a, true)).d == a.d},
		{"orthogonal", Check::matrixIsOrthogonal(m), sq && eye(mul(a, tr(a, false)))}, {"unitary", Check::matrixIsUnitary(m), sq && eye(mul(a, tr(a, true)))},
		{"projection", Check::matrixIsProjection(m), sq && mul(a, a).d == a.d}};
	for (auto& x : t) CHECK(x.got == x.want, "%s: got %d expected %d", x.n, x.got, x.want);
	CHECK(eqm<T>(m, a), "matrix changed to %s", strm<T>(m).c_str());
}
// square matrices that satisfy the definitions, and neighbours that miss them at one entry
template <class T> static std::vector<NM<T> > good(size_t n) {
	std::vector<NM<T> > o; NM<T> a = randm<T>(n, n, 70), s(n, n), h(n, n), k(n, n), kh(n, n), p(n, n), q(n, n), pr(n, n);
	std::vector<size_t> pm(n); for (size_t i = 0; i < n; i++) pm[i] = i; for (size_t i = n; i > 1; i--) std::swap(pm[i - 1], pm[H::ri(0, i - 1)]);
	for (size_t i = 0; i < n; i++) {
		for (size_t j = 0; j < n; j++) { s(i, j) = a(i, j) + a(j, i); h(i, j) = a(i, j) + cj(a(j, i)); k(i, j) = a(i, j) - a(j, i); kh(i, j) = a(i, j) - cj(a(j, i)); }
		p(i, pm[i]) = T(H::ri(0, 1) ? 1 : -1); q(i, pm[i]) = T(1); pr(i, i) = T(H::ri(0, 1));
	}
	if (n > 1) { NM<T> x = pr; x(0, 0) = T(1); x(1, 1) = T(0); x(0, 1) = T(H::ri(1, 3)); for (size_t j = 0; j < n; j++) for (size_t i = 0; i < n; i++) if (i > 1 || j > 1) if (i < 2 || j < 2) x(i, j) = T(0); o.push_back(x); }
	o.insert(o.end(), {a, s, h, k, kh, p, q, pr, NM<T>(n, n)}); return o;
}
template <class T> static void unit_ext(std::vector<NM<T> >&) {}
template <class R> static void unit_ext(std::vector<NM<std::complex<R> > >& o) { NM<std::complex<R> > u(2, 2); u(0, 0) = {0, 1}; u(1, 1) = {0, -1}; o.push_back(u); u(0, 0) = 0; u(1, 1) = 0; u(0, 1) = {0, 1}; u(1, 0) = {0, 1}; o.push_back(u); u(1, 0) = 1; o.push_back(u); }
template <class T, class MK> static void run(MK mk) {
	for (int k = 0; k < H::N(12); k++) for (size_t n = 1; n <= 5; n++) {
		auto g = good<T>(n); unit_ext(g);
		for (auto& a : g) {
			judge<T>(mk(a), a);
			for (size_t e = 0; e < a.d.size(); e++) { NM<T> b = a; b.d[e] = b.d[e] == T(0) ? T(H::ri(0, 1) ? 1 : 2) : H::ri(0, 1) ? T(0) : b.d[e] + T(1); judge<T>(mk(b), b); if (b.d[e] != T(0)) { b.d[e] = -b.d[e]; judge<T>(mk(b), b); } }
		}
	}
	for (int k = 0; k < H::N(40); k++) { size_t R, C; H::shape(5, R, C); NM<T> a = randm<T>(R, C, H::ri(0, 100), -1, 1); judge<T>(mk(a), a); }
	for (size_t r = 1; r <= 4; r++) for (size_t c = 1; c <= 4; c++) { NM<T> e(r, c); judge<T>(mk(e), e); for (size_t i = 0; i < std::min(r, c); i++) e(i, i) = T(1); judge<T>(mk(e), e); }
}
TEST(dense_double) { typedef double T; run<T>([](const NM<T>& a) { return fill(DenseMatrix<T>(a.r, a.c), a); }); }
TEST(sparse_double) { typedef double T; run<T>([](const NM<T>& a) { return fill(SparseMatrix<T>(a.r, a.c), a); }); }
TEST(dense_float) { typedef float T; run<T>([](const NM<T>& a) { return fill(DenseMatrix<T>(a.r, a.c), a); }); }
TEST(dense_complex) { typedef std::complex<double> T; run<T>([](const NM<T>& a) { return fill(DenseMatrix<T>(a.r, a.c), a); }); }
TEST(sparse_complex) { typedef std::complex<double> T; run<T>([](const NM<T>& a) { return fill(SparseMatrix<T>(a.r, a.c), a); }); }
TEST(all_3x3_patterns) { typedef double T; for (int m = 0; m < 512; m++) { NM<T> a(3, 3); for (int k = 0; k < 9; k++) a.d[k] = m >> k & 1; judge<T>(fill(SparseMatrix<T>(3, 3), a), a); judge<T>(fill(DenseMatrix<T>(3, 3), a), a); judge<T>(fill(FixedMatrix<T, 3, 3>(), a), a); } }
template <class T, Dimension K> static void fx() { for (int k = 0; k < H::N(6); k++) { auto g = good<T>(K); for (auto& a : g) { judge<T>(fill(FixedMatrix<T, K, K>(), a), a); for (size_t e = 0; e < a.d.size(); e++) { NM<T> b = a; b.d[e] += T(1); judge<T>(fill(FixedMatrix<T, K, K>(), b), b); } } } }
TEST(fixed) { fx<double, 1>(); fx<double, 2>(); fx<double, 3>(); fx<double, 4>(); fx<std::complex<double>, 2>(); fx<std::complex<double>, 3>(); fx<float, 3>(); }
HARNESS_MAIN
