#include "common.h"
#include "sf/PolyShapeFunction.h"
#include "sf/ShapeFunction.h"
using namespace NS;
static double U() { return H::ri(-1000000, 1000000) / 1e6; }
typedef std::vector<std::vector<double> > Pts;
static double h = 0.5, t = 1. / 3, u = 2. / 3;
static Pts nodes(int K, int O) {
	if (K == 1) return O == 1 ? Pts{{0}, {1}} : Pts{{0}, {1}, {h}};
	if (K == 2) return O == 1 ? Pts{{0, 0}, {1, 0}, {0, 1}} : O == 2 ? Pts{{0, 0}, {1, 0}, {0, 1}, {h, 0}, {h, h}, {0, h}} : Pts{{0, 0}, {1, 0}, {0, 1}, {t, 0}, {u, 0}, {u, t}, {t, u}, {0, u}, {0, t}, {t, t}};
	return O == 1 ? Pts{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}} : Pts{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {h, 0, 0}, {h, h, 0}, {0, h, 0}, {h, 0, h}, {0, 0, h}, {0, h, h}};
}
// T: scalar, compared with tolerance e; P: the policy or the shape function built on it
template <class T, size_t K, size_t O, class P> static void one(double e) {
	const Pts N = nodes(K, O); const size_t D = PolyShapePolicy<T, K, O>::DOF; H::CASE("K=%d order=%d", (int)K, (int)O); CHECK(D == N.size(), "degrees of freedom %d, nodes %d", (int)D, (int)N.size());
	P p; typedef FixedVector<T, K> V; typedef FixedVector<T, PolyShapePolicy<T, K, O>::DOF> W;
	for (size_t k = 0; k < D; k++) for (size_t j = 0; j < D; j++) { V x; for (size_t i = 0; i < K; i++) x[i] = (T)N[j][i]; T v = p.value(k, x); H::CASE("K=%d order=%d shape function %d at node %d", (int)K, (int)O, (int)k, (int)j); CHECK(std::fabs(v - (k == j)) <= e, "value %g", (double)v); }
	for (int r = 0; r < H::N(60); r++) {
		V x; for (size_t i = 0; i < K; i++) x[i] = (T)(r < 20 ? H::ri(0, 8) / 8. : r % 2 ? U() : 8 * U()); double sc = 1, s = 0; for (size_t i = 0; i < K; i++) sc = std::max(sc, std::fabs((double)x[i]) + 1); sc = 200 * std::pow(sc, (double)O);
		H::CASE("K=%d order=%d at (%g,%g,%g)", (int)K, (int)O, (double)x[0], K > 1 ? (double)x[K > 1] : 0, K > 2 ? (double)x[K - 1] : 0);
		for (size_t k = 0; k < D; k++) s += p.value(k, x); CHECK(std::fabs(s - 1) <= e * sc, "sum of the shape functions is %g", s);
		W w; for (size_t i = 0; i < D; i++) w[i] = (T)(r % 3 == 0 ? 1 : U() * 3);
		for (size_t k = 0; k < D; k++) {
			bool ones = r % 3 == 0; V g = ones ? p.gradient(k, x) : p.gradient(k, x, w), g2 = ones ? p.gradient2(k, x) : p.gradient2(k, x, w);
			auto f = [&](size_t d, double a) { V y = x; y[d] = (T)(y[d] + a); return ones ? (double)p.value(k, y) : (double)p.value(k, y, w); };
			H::CASE("K=%d order=%d shape function %d %s at (%g,%g,%g)", (int)K, (int)O, (int)k, ones ? "unit weights" : "random weights", (double)x[0], K > 1 ? (double)x[K > 1] : 0, K > 2 ? (double)x[K - 1] : 0);
			if (ones) CHECK(std::fabs((double)p.value(k, x) - (double)p.value(k, x, w)) <= e * sc, "value differs from the value with unit weights");
			if (ones) { V q = p.gradient(k, x, w), q2 = p.gradient2(k, x, w); for (size_t d = 0; d < K; d++) CHECK(q[d] == g[d] && q2[d] == g2[d], "derivatives differ from those with unit weights"); }
			for (size_t d = 0; d < K; d++) {
				double a = 0.5, d1 = (8 * (f(d, a) - f(d, -a)) - (f(d, 2 * a) - f(d, -2 * a))) / (12 * a), d2 = (f(d, a) - 2 * f(d, 0) + f(d, -a)) / (a * a);	// exact up to degree 3
				CHECK(std::fabs(g[d] - d1) <= 40 * e * sc, "first derivative %d is %g expected %g", (int)d, (double)g[d], d1); CHECK(std::fabs(g2[d] - d2) <= 80 * e * sc, "second derivative %d is %g expected %g", (int)d, (double)g2[d], d2);
			}
		}
	}
}
template <class T, size_t K, size_t O> static void both(double e) { one<T, K, O, PolyShapePolicy<T, K, O> >(e); one<T, K, O, PolyShapeFunction<T, K, O> >(e); }
template <class T> static void all(double e) { both<T, 1, 1>(e); both<T, 1, 2>(e); both<T, 2, 1>(e); both<T, 2, 2>(e); both<T, 2, 3>(e); both<T, 3, 1>(e); both<T, 3, 2>(e); }
TEST(double_) { all<double>(1e-13); }
TEST(float_) { all<float>(1e-5); }
HARNESS_MAIN
