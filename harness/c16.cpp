#include "lin.h"
#include "Iterative.h"
typedef std::complex<double> Z;
template <class T> static std::string vs(const std::vector<T>& x) { std::string o = "["; for (auto& v : x) o += " " + H::str(v); return o + " ]"; }
// one sweep; w < 0: Jacobi, else relaxation with weight w
template <class T> static std::vector<T> sweep(const NM<T>& a, const std::vector<T>& b, const std::vector<T>& x, double w) { std::vector<T> y = x; for (size_t i = 0; i < a.r; i++) { T t = T(0); for (size_t j = 0; j < a.r; j++) if (j != i) t += a(i, j) * (w < 0 ? x[j] : y[j]); T g = (b[i] - t) / a(i, i); y[i] = w < 0 ? g : T(1 - w) * x[i] + T(w) * g; } return y; }
template <class T> static double change(const std::vector<T>& x, const std::vector<T>& y) { double c = 0; for (size_t i = 0; i < x.size(); i++) c += std::norm(x[i] - y[i]); return c; }
template <class T, class M> static std::vector<T> run(const M& A, const std::vector<T>& b, const std::vector<T>& x0, double w, size_t mi, double eps, size_t* st) {
	DynamicVector<T> B(b.size()), X(x0.size()); for (size_t i = 0; i < b.size(); i++) B[i] = b[i]; for (size_t i = 0; i < x0.size(); i++) X[i] = x0[i]; const DynamicVector<T> cb = B, cx = X;
	DynamicVector<T> r = w < 0 ? Iterative::serial::jacobi(A, cb, cx, mi, eps, st) : Iterative::serial::sor(A, cb, cx, w, mi, eps, st);
	for (size_t i = 0; i < b.size(); i++) CHECK(cb[i] == b[i], "the right-hand side changed"); for (size_t i = 0; i < x0.size(); i++) CHECK(cx[i] == x0[i], "the initial vector changed"); std::vector<T> o(r.size()); for (size_t i = 0; i < r.size(); i++) o[i] = r[i]; return o;
}
template <class T, class M> static void all(bool sor) {
	for (int k = 0; k < H::N(130); k++) {
		size_t n = Sz<M>::n(6); NM<T> a = rgood<T>(n, false, k % 3 ? 100 : 35); if (k % 8 == 7) for (auto& x : a.d) x = x * T(0.5) + rv<T>(0.3); if (k % 8 == 7) for (size_t i = 0; i < n; i++) a(i, i) = a(i, i) + T(1); std::vector<T> b(n), x0(n); for (auto& x : b) x = rv<T>(4); for (auto& x : x0) x = k % 4 ? rv<T>(3) : T(0);
		for (size_t i = 0; i < n; i++) if (std::abs(a(i, i)) < 0.3) a(i, i) = T(1); double w = !sor ? -1 : k % 3 == 0 ? 1 : H::ri(1, 19) / 10.; const M A = fill(Mk<M>::z(n, n), a);
		std::vector<std::vector<T> > seq; seq.push_back(x0); for (int m = 1; m <= 6; m++) seq.push_back(sweep(a, b, seq.back(), w)); if (!(change(seq[6], x0) < 1e12)) continue;
		for (size_t m = 0; m <= 6; m++) { size_t st = 99; H::CASE("%s weight %g, %zu sweeps: A=%s b=%s x0=%s", sor ? "sor" : "jacobi", w, m, a.s().c_str(), vs(b).c_str(), vs(x0).c_str()); std::vector<T> x = run<T>(A, b, x0, w, m, 0, &st); bool still = m > 0 && change(seq[m], seq[m - 1]) < 1e-20; CHECK(x.size() == n && (still ? st <= m : st == m), "iteration count %zu", st); double sc = 1; for (auto& q : seq[m]) sc += std::abs(q); for (size_t i = 0; i < n; i++) CHECK(std::abs(x[i] - seq[m][i]) <= tol<T>() * sc * 10, "component %zu is %s expected %s", i, H::str(x[i]).c_str(), H::str(seq[m][i]).c_str()); run<T>(A, b, x0, w, m, 0, nullptr); }
		CHECK(eqm<T>(A, a), "the matrix changed");
		// convergence test
		double eps = std::pow(10.0, -H::ri(0, 3)) * 2; size_t mi = H::ri(0, 1) ? 200 : H::ri(1, 8), st = 99; std::vector<T> x = x0, y; size_t it = 0; bool conv = false, edge = false; for (; it < mi && !conv; it++) { y = sweep(a, b, x, w); double c = change(x, y); edge = edge || std::fabs(c - eps * eps) <= 1e-3 * eps * eps || !(c < 1e20); conv = c <= eps * eps; x = y; } if (edge) continue;
		H::CASE("%s weight %g, eps %g, at most %zu: A=%s b=%s x0=%s", sor ? "sor" : "jacobi", w, eps, mi, a.s().c_str(), vs(b).c_str(), vs(x0).c_str()); std::vector<T> r = run<T>(A, b, x0, w, mi, eps, &st); CHECK(st <= mi, "count %zu above the maximum", st); CHECK(st == it, "count %zu expected %zu", st, it); double sc = 1; for (auto& q : x) sc += std::abs(q); for (size_t i = 0; i < n; i++) CHECK(std::abs(r[i] - x[i]) <= tol<T>() * sc * 100, "component %zu is %s expected %s", i, H::str(r[i]).c_str(), H::str(x[i]).c_str());
		// a missing or zero diagonal entry and overflow must not be reported as convergence
		{ NM<T> z = a; size_t i = H::ri(0, (int)n - 1); z(i, i) = T(0); M Zm = fill(Mk<M>::z(n, n), z); size_t s2 = 5; H::CASE("%s with zero diagonal: A=%s b=%s", sor ? "sor" : "jacobi", z.s().c_str(), vs(b).c_str()); bool q = quiet([&] { run<T>(Zm, b, x0, w, 5, 1, &s2); }); CHECK(!q || s2 == 5, "reported convergence after %zu sweeps", s2); }
		if (n > 1) { NM<T> z = a; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) z(i, j) = i == j ? T(1e-3) : T(1e3); M Zm = fill(Mk<M>::z(n, n), z); size_t s2 = 400; H::CASE("%s diverging: A=%s", sor ? "sor" : "jacobi", z.s().c_str()); bool q = quiet([&] { run<T>(Zm, b, x0, sor ? 1 : -1, 400, 1, &s2); }); bool zero = true; for (auto& v : b) zero = zero && v == T(0); for (auto& v : x0) zero = zero && v == T(0); CHECK(!q || s2 == 400 || zero, "reported convergence after %zu sweeps", s2); }
	}
}
template <class T, template <class> class MM> static void dims() { typedef MM<T> M; typedef DynamicVector<T> V; for (int k = 0; k < 30; k++) { size_t n = H::ri(1, 4), m = H::ri(1, 4); if (m == n) m++; M N(n, m), E = fill(M(n, n), neye<T>(n)); V b(n), c(m); H::CASE("%zu against %zu", n, m); CHECK(throws<NotSquareException>([&] { Iterative::serial::jacobi(N, b, b); }) && throws<NotSquareException>([&] { Iterative::serial::sor(N, b, b); }), "non-square not rejected"); CHECK(throws<MatrixVectorMismatchException>([&] { Iterative::serial::jacobi(E, c, b); }) && throws<MatrixVectorMismatchException>([&] { Iterative::serial::sor(E, c, b); }) && throws<MatrixVectorMismatchException>([&] { Iterative::serial::jacobi(E, b, c); }) && throws<MatrixVectorMismatchException>([&] { Iterative::serial::sor(E, b, c); }), "vector sizes not rejected"); } }
TEST(jacobi_dense) { all<double, DenseMatrix<double> >(false); all<Z, DenseMatrix<Z> >(false); }
TEST(jacobi_sparse) { all<double, SparseMatrix<double> >(false); all<Z, SparseMatrix<Z> >(false); }
TEST(sor_dense) { all<double, DenseMatrix<double> >(true); all<Z, DenseMatrix<Z> >(true); }
TEST(sor_sparse) { all<double, SparseMatrix<double> >(true); }
TEST(fixed) { all<double, FixedMatrix<double, 3, 3> >(false); all<double, FixedMatrix<double, 3, 3> >(true); all<double, FixedMatrix<double, 1, 1> >(true); }
TEST(shape) { dims<double, DenseMatrix>(); dims<double, SparseMatrix>(); }
HARNESS_MAIN
