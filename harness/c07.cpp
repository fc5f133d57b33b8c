#include "common.h"
#include "matrix/SparseMatrix.h"
#include "matrix/DenseMatrix.h"
#include "matrix/FixedMatrix.h"
#include "Vector.h"
using namespace NS;
template <class T> static T fin(int mode) { switch (mode) { case 0: return T(-H::ri(1, 40)) / T(4); case 1: return T(H::ri(1, 40)) / T(4); case 2: return H::ri(0, 2) ? T(H::ri(-9, 9)) : T(0); default: return T(H::ri(-9, 9)) * std::pow(T(10), T(H::ri(-20, 20))); } }
template <class T, class C> static void red(const C& c, const std::vector<T>& e, const char* nm) {
	T s = 0, mx = e[0], mn = e[0]; for (auto x : e) { s += x; mx = std::max(mx, x); mn = std::min(mn, x); }
	double tol = sizeof(T) == 4 ? 1e-4 : 1e-9; double mag = 0; for (auto x : e) mag += std::fabs((double)x);
	CHECK(std::fabs((double)(c.sum() - s)) <= tol * (1e-300 + mag), "%s sum=%g expected %g", nm, (double)c.sum(), (double)s);
	CHECK(std::fabs((double)(c.avg() - s / T(e.size()))) <= tol * (1e-300 + mag), "%s avg=%g expected %g", nm, (double)c.avg(), (double)(s / T(e.size())));
	CHECK(c.max() == mx, "%s max=%g expected %g", nm, (double)c.max(), (double)mx); CHECK(c.min() == mn, "%s min=%g expected %g", nm, (double)c.min(), (double)mn);
}
template <class T, class C> static void mtests(const C& c, const std::vector<T>& e, const char* nm) {
	bool z = false, n = false, i = false, emp = true; for (auto x : e) { z |= x == T(0); n |= std::isnan(x); i |= std::isinf(x); emp &= x == T(0); }
	CHECK(c.has_zero() == z, "%s has_zero", nm); CHECK(c.has_nan() == n, "%s has_nan", nm); CHECK(c.has_inf() == i, "%s has_inf", nm); CHECK(c.empty() == emp, "%s empty", nm);
}
template <class T, class C> static void vtests(const C& c, const std::vector<T>& e, const char* nm) {
	bool z = false, n = false, i = false; for (auto x : e) { z |= x == T(0); n |= std::isnan(x); i |= std::isinf(x); }
	CHECK(c.hasZero() == z, "%s hasZero", nm); CHECK(c.hasNaN() == n, "%s hasNaN", nm); CHECK(c.hasInf() == i, "%s hasInf", nm);
}
template <class T> static std::string sv(const std::vector<T>& a) { std::string o = "["; for (auto& x : a) o += H::str(x) + " "; return o + "]"; }
template <class T> static void all() {
	for (int k = 0; k < H::N(400); k++) {
		size_t R, C; H::shape(4, R, C); std::vector<T> e(R * C), f(6); int mode = H::ri(0, 3); for (auto& x : e) x = fin<T>(mode); for (auto& x : f) x = fin<T>(mode);
		bool sp = H::ri(0, 1); if (sp) for (auto& x : e) if (H::ri(0, 1)) x = 0;
		bool spec = k % 3 == 0; if (spec) { T q = H::ri(0, 1) ? std::numeric_limits<T>::infinity() * (H::ri(0, 1) ? 1 : -1) : std::numeric_limits<T>::quiet_NaN(); e[H::ri(0, e.size() - 1)] = q; f[H::ri(0, 5)] = q; }
		DenseMatrix<T> d(R, C); SparseMatrix<T> s(R, C); DynamicVector<T> v(R * C); FixedMatrix<T, 2, 3> fm; FixedVector<T, 6> fv;
		for (size_t i = 0; i < e.size(); i++) { d.linear_set(i, e[i]); if (e[i] != 0) s.set(i / C, i % C, e[i]); v.linear_set(i, e[i]); } for (int i = 0; i < 6; i++) { fm.linear_set(i, f[i]); fv.linear_set(i, f[i]); }
		H::CASE("%zux%zu %s; fixed %s", R, C, sv(e).c_str(), sv(f).c_str());
		if (!spec) { red(d, e, "dense"); red(s, e, "sparse"); red(v, e, "vector"); red(fm, f, "fixed matrix"); red(fv, f, "fixed vector"); }
		mtests(d, e, "dense"); mtests(s, e, "sparse"); mtests(fm, f, "fixed matrix"); vtests(v, e, "vector"); vtests(fv, f, "fixed vector");
		for (size_t i = 0; i < e.size(); i++) CHECK(memcmp(&e[i], &v.linear_at(i), sizeof(T)) == 0, "vector changed");
	}
}
TEST(reductions_double) { all<double>(); }
TEST(reductions_float) { all<float>(); }
TEST(each_position) {	// a single special value at every position
	for (size_t n = 1; n <= 6; n++) for (size_t p = 0; p < n; p++) for (int w = 0; w < 5; w++) {
		double q = w == 0 ? 0.0 : w == 1 ? NAN : w == 2 ? INFINITY : w == 3 ? -INFINITY : 1e308; std::vector<double> e(n, -3.0); e[p] = q; H::CASE("length %zu, special %g at %zu", n, q, p);
		DenseMatrix<double> d(1, n), d2(n, 1); SparseMatrix<double> s(1, n), s2(n, 1); DynamicVector<double> v(n); for (size_t i = 0; i < n; i++) { d.linear_set(i, e[i]); d2.linear_set(i, e[i]); s.linear_set(i, e[i]); s2.linear_set(i, e[i]); v.linear_set(i, e[i]); }
		mtests(d, e, "dense row"); mtests(d2, e, "dense column"); mtests(s, e, "sparse row"); mtests(s2, e, "sparse column"); vtests(v, e, "vector");
		if (w == 0 || w == 4) { red(d, e, "dense row"); red(s, e, "sparse row"); red(s2, e, "sparse column"); red(v, e, "vector"); }
	}
}
TEST(sparse_stored_and_not_stored) {	// full, partially filled and empty sparse matrices of one sign
	for (int sg = -1; sg <= 1; sg += 2) for (int mask = 0; mask < 64; mask++) { std::vector<double> e(6); SparseMatrix<double> s(2, 3); for (int b = 0; b < 6; b++) if (mask >> b & 1) { e[b] = sg * (b + 1.5); s.linear_set(b, e[b]); } H::CASE("2x3 %s", sv(e).c_str()); red(s, e, "sparse"); mtests(s, e, "sparse"); }
}
TEST(complex_sum) { typedef std::complex<double> Z; for (int k = 0; k < H::N(50); k++) { NM<Z> r = randm<Z>(H::ri(1, 4), H::ri(1, 4), 60); Z s = 0; bool z = false, emp = true; DenseMatrix<Z> d(r.r, r.c); SparseMatrix<Z> p(r.r, r.c); DynamicVector<Z> v(r.d.size()); for (size_t i = 0; i < r.d.size(); i++) { s += r.d[i]; z |= r.d[i] == Z(0); emp &= r.d[i] == Z(0); d.linear_set(i, r.d[i]); p.linear_set(i, r.d[i]); v.linear_set(i, r.d[i]); } H::CASE("%s", r.s().c_str());
	CHECK(d.sum() == s && p.sum() == s && v.sum() == s, "complex sum"); CHECK(d.has_zero() == z && p.has_zero() == z && v.hasZero() == z, "complex has_zero"); CHECK(d.empty() == emp && p.empty() == emp, "complex empty"); } }
HARNESS_MAIN
