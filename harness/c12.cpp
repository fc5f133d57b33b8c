#include "lin.h"
template <class T, class V> static V vec(const std::vector<T>& x) { V v(x.size()); for (size_t i = 0; i < x.size(); i++) v[i] = x[i]; return v; }
template <class T, class V> struct VM { static V z(size_t n) { return V(n); } };
template <class T, size_t N> struct VM<T, FixedVector<T, N> > { static FixedVector<T, N> z(size_t) { return FixedVector<T, N>(); } };
template <class T> static std::vector<T> nmv(const NM<T>& a, const std::vector<T>& x) { std::vector<T> y(a.r, T(0)); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) y[i] += a(i, j) * x[j]; return y; }
template <class T> static std::string vs(const std::vector<T>& x) { std::string o = "["; for (auto& v : x) o += " " + H::str(v); return o + " ]"; }
template <class T, class M, class V> static void solve() {
	for (int k = 0; k < H::N(150); k++) {
		size_t n = Sz<M>::n(6); int f = k % 3 ? 100 : 40; NM<T> l = rlower<T>(n, k % 2, f), u = nt(rlower<T>(n, k % 5 == 0, f)); std::vector<T> b(n); for (auto& x : b) x = k % 7 == 0 && H::ri(0, 2) ? T(0) : rv<T>(3);
		const M L = fill(Mk<M>::z(n, n), l), U = fill(Mk<M>::z(n, n), u); V bb = VM<T, V>::z(n); for (size_t i = 0; i < n; i++) bb[i] = b[i]; const V cb = bb;
		H::CASE("L=%s U=%s b=%s", l.s().c_str(), u.s().c_str(), vs(b).c_str()); V x = LU::serial::solve_lu(L, U, cb); CHECK(x.size() == n, "length of the solution"); std::vector<T> xv(n); double mx = 1; for (size_t i = 0; i < n; i++) { xv[i] = x[i]; mx = std::max(mx, (double)std::abs(xv[i])); }
		std::vector<T> y = nmv(u, xv), r = nmv(l, y); double my = mx; for (auto& v : y) my = std::max(my, (double)std::abs(v)); for (size_t i = 0; i < n; i++) CHECK(std::abs(r[i] - b[i]) <= tol<T>() * n * n * my, "(LUx)[%zu] is %s expected %s", i, H::str(r[i]).c_str(), H::str(b[i]).c_str());
		CHECK(eqm<T>(L, l) && eqm<T>(U, u), "a factor changed"); for (size_t i = 0; i < n; i++) CHECK(cb[i] == b[i], "the right-hand side changed");
		{ NM<T> z = k % 2 ? l : u; size_t i = H::ri(0, (int)n - 1); z(i, i) = T(0); M Z = fill(Mk<M>::z(n, n), z); H::CASE("zero diagonal: L=%s U=%s", (k % 2 ? z : l).s().c_str(), (k % 2 ? u : z).s().c_str()); CHECK(throws<SingularException>([&] { LU::serial::solve_lu(k % 2 ? Z : L, k % 2 ? U : Z, cb); }), "not rejected"); }
	}
}
template <class T, class M, class V> static void dims() {
	for (int k = 0; k < 30; k++) { size_t n = H::ri(1, 4), m = H::ri(1, 4); if (m == n) m++; M L = fill(M(n, n), neye<T>(n)), N(n, m), K(m, m); V b(n), c(m); H::CASE("order %zu against %zu", n, m); CHECK(throws<NotSquareException>([&] { LU::serial::solve_lu(N, L, b); }) && throws<NotSquareException>([&] { LU::serial::solve_lu(L, N, b); }), "non-square not rejected"); CHECK(throws<MatrixSizeMismatchException>([&] { LU::serial::solve_lu(L, K, b); }), "sizes not rejected"); CHECK(throws<MatrixVectorMismatchException>([&] { LU::serial::solve_lu(L, L, c); }), "vector not rejected"); }
}
template <class T, class M, bool two> struct Two { static void run(const NM<T>&, const NM<T>&, size_t) {} };
template <class T, template <class> class MM> struct Two<T, MM<T>, true> { static void run(const NM<T>& l, const NM<T>& u, size_t n) { typedef MM<T> M; const M L = fill(M(n, n), l), U = fill(M(n, n), u); H::CASE("L=%s U=%s", l.s().c_str(), u.s().c_str()); NM<T> i = get<T>(Operations::inverse(L, U)), a = nmul(l, u); double sc = n * (1 + nmax(i)) * (1 + nmax(a)); CHECK(nclose(nmul(i, a), neye<T>(n), sc) && nclose(nmul(a, i), neye<T>(n), sc), "inverse(L,U)=%s is not the inverse of LU=%s", i.s().c_str(), a.s().c_str()); CHECK(eqm<T>(L, l) && eqm<T>(U, u), "a factor changed"); } };
template <class T, class M, bool two> static void inv() {
	for (int k = 0; k < H::N(120); k++) {
		size_t n = Sz<M>::n(6); NM<T> a = k % 4 == 3 ? nmul(rlower<T>(n, true), nt(rlower<T>(n, false))) : rgood<T>(n, k % 2, k % 3 ? 100 : 50); if (k % 10 == 9) { a = NM<T>(n, n); for (size_t i = 0; i < n; i++) a(i, (i + 1) % n) = T(H::ri(1, 5)); }
		const M A = fill(Mk<M>::z(n, n), a); H::CASE("A=%s", a.s().c_str()); M I = Operations::inverse(A); NM<T> i = get<T>(I); double sc = n * n * (1 + nmax(i)) * (1 + nmax(a));
		CHECK(nclose(nmul(i, a), neye<T>(n), sc) && nclose(nmul(a, i), neye<T>(n), sc), "inverse is %s", i.s().c_str()); CHECK(eqm<T>(A, a), "the input changed");
		M L = A, U = A, P = A; LU::serial::doolittle(A, L, U, P); NM<T> j = get<T>(Operations::inverse(L, U, P)); CHECK(nclose(nmul(j, a), neye<T>(n), sc) && nclose(nmul(a, j), neye<T>(n), sc), "inverse from the factors is %s", j.s().c_str());
		Two<T, M, two>::run(rlower<T>(n, true, 70), nt(rlower<T>(n, false, 70)), n);
	}
}
#define SV(T, M) solve<T, M<T>, DynamicVector<T> >(); dims<T, M<T>, DynamicVector<T> >()
typedef std::complex<double> Z;
TEST(solve_dense) { SV(double, DenseMatrix); SV(Z, DenseMatrix); SV(float, DenseMatrix); }
TEST(solve_sparse) { SV(double, SparseMatrix); SV(Z, SparseMatrix); }
TEST(solve_fixed) { solve<double, FixedMatrix<double, 1, 1>, FixedVector<double, 1> >(); solve<double, FixedMatrix<double, 3, 3>, FixedVector<double, 3> >(); solve<double, FixedMatrix<double, 4, 4>, DynamicVector<double> >(); }
TEST(inverse_dense) { inv<double, DenseMatrix<double>, true>(); inv<Z, DenseMatrix<Z>, true>(); inv<float, DenseMatrix<float>, true>(); }
TEST(inverse_sparse) { inv<double, SparseMatrix<double>, true>(); inv<Z, SparseMatrix<Z>, true>(); }
TEST(inverse_dims) { for (int k = 0; k < 30; k++) { size_t n = H::ri(1, 4), m = H::ri(1, 4); if (m == n) m++; typedef DenseMatrix<double> D; D N(n, m), L = fill(D(n, n), neye<double>(n)), K = fill(D(m, m), neye<double>(m)); H::CASE("%zu against %zu", n, m); CHECK(throws<NotSquareException>([&] { Operations::inverse(N, L); }) && throws<NotSquareException>([&] { Operations::inverse(L, N); }) && throws<NotSquareException>([&] { Operations::inverse(N); }) && throws<NotSquareException>([&] { Operations::inverse(L, L, N); }), "non-square not rejected"); CHECK(throws<MatrixSizeMismatchException>([&] { Operations::inverse(L, K); }) && throws<MatrixSizeMismatchException>([&] { Operations::inverse(L, L, K); }), "sizes not rejected"); } }
HARNESS_MAIN
