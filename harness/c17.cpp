#include "lin.h"
#include "CG.h"
typedef long double LD;
static std::string vs(const std::vector<double>& x) { std::string o = "["; for (auto& v : x) o += " " + H::str(v); return o + " ]"; }
typedef std::vector<LD> W;
static W mv(const NM<double>& a, const W& x) { W y(a.r, 0); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.r; j++) y[i] += a(i, j) * x[j]; return y; }
static LD dot(const W& a, const W& b) { LD s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
struct Step { W x, r, p; };
// the textbook method; c empty: no preconditioner
static std::vector<Step> ref(const NM<double>& a, const NM<double>& c, const W& b, const W& x0, size_t m) {
	std::vector<Step> o; W x = x0, r = b, ax = mv(a, x); for (size_t i = 0; i < b.size(); i++) r[i] -= ax[i]; W z = c.r ? mv(c, r) : r, p = z; LD l = dot(r, z); o.push_back({x, r, p});
	for (size_t k = 0; k < m; k++) { W t = mv(a, p); LD d = dot(t, p); if (d == 0) break; LD al = l / d; for (size_t i = 0; i < b.size(); i++) { x[i] += al * p[i]; r[i] -= al * t[i]; } z = c.r ? mv(c, r) : r; LD l2 = dot(r, z), be = l2 / l; for (size_t i = 0; i < b.size(); i++) p[i] = z[i] + be * p[i]; l = l2; o.push_back({x, r, p}); if (l == 0) break; }
	return o;
}
static NM<double> spd(size_t n, int fillpct) { NM<double> a(n, n); for (size_t i = 0; i < n; i++) { a(i, i) = n + 1 + H::ri(0, 300) / 100.; for (size_t j = 0; j < i; j++) if (H::ri(0, 99) < fillpct) a(i, j) = a(j, i) = rv<double>(); } return a; }
// spread spectrum: the method needs about as many steps as there are unknowns
static NM<double> slow(size_t n) { NM<double> a(n, n); for (size_t i = 0; i < n; i++) { a(i, i) = 1 + 1.5 * i; for (size_t j = 0; j < i; j++) if (H::ri(0, 2) == 0) a(i, j) = a(j, i) = rv<double>() / (40. * n); } return a; }
template <class M> static void all(bool pre) {
	for (int k = 0; k < H::N(200); k++) {
		size_t n = k % 4 == 2 ? H::ri(7, 11) : Sz<M>::n(6); NM<double> a = k % 4 == 2 ? slow(n) : spd(n, k % 3 ? 100 : 35), c(0, 0); if (pre) { c = NM<double>(n, n); for (size_t i = 0; i < n; i++) c(i, i) = 1 / a(i, i) * (k % 2 ? 1 : 0.5 + H::ri(1, 100) / 50.); if (k % 5 == 0) c = spd(n, 60); }
		W b(n), x0(n); for (auto& x : b) x = rv<double>(4); for (auto& x : x0) x = k % 4 ? rv<double>(3) : 0; if (k % 6 == 5) { b = mv(a, x0); for (auto& x : b) x = (double)x; } std::vector<double> db(b.begin(), b.end()), dx(x0.begin(), x0.end());
		const M A = fill(Mk<M>::z(n, n), a), C = pre ? fill(Mk<M>::z(n, n), c) : M(A); DynamicVector<double> B(n), X(n); for (size_t i = 0; i < n; i++) { B[i] = db[i]; X[i] = dx[i]; } const DynamicVector<double> cB = B, cX = X;
		auto go = [&](size_t mi, double eps, size_t* st) { return pre ? CG::serial::pcg(A, cB, C, cX, mi, eps, st) : CG::serial::cg(A, cB, cX, mi, eps, st); };
		std::vector<Step> s = ref(a, c, b, x0, n + 2); double sc = 1; for (auto& v : db) sc += std::fabs(v); for (auto& v : dx) sc += std::fabs(v);
		for (size_t m = 1; m <= n + 1; m++) {
			size_t st = 99; H::CASE("%s at most %zu steps: A=%s C=%s b=%s x0=%s", pre ? "pcg" : "cg", m, a.s().c_str(), c.s().c_str(), vs(db).c_str(), vs(dx).c_str()); DynamicVector<double> x = go(m, 0, &st); CHECK(x.size() == n, "length"); for (size_t i = 0; i < n; i++) CHECK(std::isfinite(x[i]), "component %zu is %g", i, x[i]);
			bool small = false; for (size_t q = 0; q <= m && q < s.size(); q++) small = small || dot(s[q].r, s[q].r) < 1e-18 * sc * sc; CHECK(st <= m && (small || st == m), "%zu steps reported", st);
			const W& e = s[std::min(m, s.size() - 1)].x; for (size_t i = 0; i < n; i++) CHECK(std::fabs(x[i] - (double)e[i]) <= 1e-8 * sc, "component %zu is %.12g expected %.12g", i, x[i], (double)e[i]); go(m, 0, nullptr);
		}
		// stop criterion
		double eps = std::pow(10.0, -H::ri(0, 6)); size_t mi = H::ri(0, 2) ? 100 : H::ri(1, 3), st = 99, want = mi; bool edge = false; for (size_t q = 1; q < s.size(); q++) { LD rr = dot(s[q].r, s[q].r); if (std::fabs((double)(rr / (eps * eps)) - 1) < 0.01) edge = true; if (rr <= eps * eps || q == mi) { want = q; break; } } if (dot(s[0].r, s[0].r) < 1e-12) edge = true;
		H::CASE("%s eps %g at most %zu: A=%s C=%s b=%s x0=%s", pre ? "pcg" : "cg", eps, mi, a.s().c_str(), c.s().c_str(), vs(db).c_str(), vs(dx).c_str()); DynamicVector<double> x = go(mi, eps, &st); W wx(n); for (size_t i = 0; i < n; i++) { CHECK(std::isfinite(x[i]), "component %zu is %g", i, x[i]); wx[i] = x[i]; } W q = mv(a, wx); for (size_t i = 0; i < n; i++) q[i] -= b[i]; CHECK(st == mi || std::sqrt((double)dot(q, q)) <= eps * 1.01 + 1e-9 * sc, "stopped after %zu steps with residual %g", st, (double)std::sqrt(dot(q, q))); if (!edge) CHECK(st == want, "stopped after %zu steps expected %zu", st, want);
		CHECK(eqm<double>(A, a), "the matrix changed"); for (size_t i = 0; i < n; i++) CHECK(cB[i] == db[i] && cX[i] == dx[i], "a vector changed");
		// exact start, in particular zero right-hand side and zero start
		{ NM<double> d(n, n); for (size_t i = 0; i < n; i++) d(i, i) = 1 << H::ri(0, 3); M D = fill(Mk<M>::z(n, n), d); DynamicVector<double> e(n), f(n); for (size_t i = 0; i < n; i++) { e[i] = k % 2 ? 0 : H::ri(-4, 4); f[i] = e[i] * d(i, i); } size_t s0 = 7; H::CASE("start is the solution: A=%s", d.s().c_str()); DynamicVector<double> r = pre ? CG::serial::pcg(D, f, D, e, 10, 1e-6, &s0) : CG::serial::cg(D, f, e, 10, 1e-6, &s0); CHECK(s0 == 0, "%zu steps reported", s0); for (size_t i = 0; i < n; i++) CHECK(r[i] == e[i], "component %zu is %g expected %g", i, r[i], e[i]); pre ? CG::serial::pcg(D, f, D, e) : CG::serial::cg(D, f, e); }
		// the residual becomes exactly zero on the way
		{ NM<double> d = neye<double>(n); for (auto& v : d.d) v *= 4; M D = fill(Mk<M>::z(n, n), d); DynamicVector<double> e(n), f(n); for (size_t i = 0; i < n; i++) f[i] = H::ri(1, 4) * 4; for (double ep : {0.0, 1e-6}) { size_t s0 = 77; H::CASE("exact after one step: eps %g order %zu", ep, n); DynamicVector<double> r = pre ? CG::serial::pcg(D, f, D, e, 10, ep, &s0) : CG::serial::cg(D, f, e, 10, ep, &s0); CHECK(s0 == 1, "%zu steps reported", s0); for (size_t i = 0; i < n; i++) CHECK(r[i] == f[i] / 4, "component %zu is %g", i, r[i]); } }
	}
}
template <class M> static void prec() { for (int k = 0; k < 60; k++) { size_t n = Sz<M>::n(5); NM<double> a = rgood<double>(n, false, 60), c0 = randm<double>(n, n, 50); const M A = fill(Mk<M>::z(n, n), a); M C = fill(Mk<M>::z(n, n), c0); CG::serial::jacobi(A, C); H::CASE("preconditioner of %s", a.s().c_str()); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) CHECK(i == j ? H::close(C.at(i, i) * a(i, i), 1.0) : C.at(i, j) == c0(i, j), "entry %zu,%zu is %g", i, j, C.at(i, j)); CHECK(eqm<double>(A, a), "the matrix changed"); size_t z = H::ri(0, (int)n - 1); a(z, z) = 0; M B = fill(Mk<M>::z(n, n), a); CHECK(throws<SingularException>([&] { CG::serial::jacobi(B, C); }), "zero diagonal not rejected"); } }
TEST(cg_dense) { all<DenseMatrix<double> >(false); }
TEST(cg_sparse) { all<SparseMatrix<double> >(false); }
TEST(pcg_dense) { all<DenseMatrix<double> >(true); }
TEST(pcg_sparse) { all<SparseMatrix<double> >(true); }
TEST(jacobi) { prec<DenseMatrix<double> >(); prec<SparseMatrix<double> >(); }
TEST(shape) { typedef DenseMatrix<double> D; for (int k = 0; k < 30; k++) { size_t n = H::ri(1, 4), m = H::ri(1, 4); if (m == n) m++; D N(n, m), E = fill(D(n, n), neye<double>(n)), F(m, m); DynamicVector<double> b(n); H::CASE("%zu against %zu", n, m); CHECK(throws<NotSquareException>([&] { CG::serial::cg(N, b, b); }) && throws<NotSquareException>([&] { CG::serial::pcg(N, b, E, b); }) && throws<NotSquareException>([&] { CG::serial::pcg(E, b, N, b); }) && throws<NotSquareException>([&] { CG::serial::jacobi(N, E); }) && throws<NotSquareException>([&] { CG::serial::jacobi(E, N); }), "non-square not rejected"); CHECK(throws<MatrixSizeMismatchException>([&] { CG::serial::pcg(E, b, F, b); }) && throws<MatrixSizeMismatchException>([&] { CG::serial::jacobi(E, F); }), "sizes not rejected"); } }
HARNESS_MAIN
