#include "common.h"
#include "quadrature/Quadrature.h"
using namespace NS;
static double U() { return H::ri(-1000000, 1000000) / 1e6; }
static double fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
static const int DEG[3][4] = {{0}, {0, 1, 3, 5}, {0, 1, 2, 3}}, CNT[3][4] = {{0}, {0, 1, 2, 3}, {0, 1, 3, 4}};
template <class T, size_t K, size_t O> static void one(double tol) {
	typedef FixedVector<T, K> V; GaussLegendreQuadratureFactory<T, K, O> f; GaussLegendreQuadrature<T, K, O> q; const auto& P = f.getQuadraturePoints(); const auto& W = f.getQuadratureWeights();
	H::CASE("K=%d order=%d", (int)K, (int)O); CHECK(P.size() == W.size() && !P.empty(), "%d points, %d weights", (int)P.size(), (int)W.size());
	double s = 0; for (T w : W) s += w; CHECK(std::fabs(s - 1 / fact(K)) <= tol, "weights add up to %.17g", s);
	for (size_t i = 0; i < P.size(); i++) { double t = 0; for (size_t d = 0; d < K; d++) { CHECK(P[i][d] >= -tol, "point %d outside the reference simplex", (int)i); t += P[i][d]; } CHECK(t <= 1 + tol, "point %d outside the reference simplex", (int)i); }
	int D = DEG[K][O];
	for (int a = 0; a <= D; a++) for (int b = 0; b <= (K == 2 ? D - a : 0); b++) {
		double exact = K == 1 ? 1. / (a + 1) : fact(a) * fact(b) / fact(a + b + 2); H::CASE("K=%d order=%d x^%d y^%d", (int)K, (int)O, a, b);
		auto mono = [&](const V& p) { T r = 1; for (int i = 0; i < a; i++) r *= p[0]; for (int i = 0; i < b; i++) r *= p[K - 1]; return r; };
		double v = q.eval(mono), w = q.eval_index([&](Index, const V& p) { return mono(p); }); CHECK(std::fabs(v - exact) <= tol, "integral is %.17g expected %.17g", v, exact); CHECK(std::fabs(w - exact) <= tol, "integral by eval_index is %.17g expected %.17g", w, exact);
	}
	for (int r = 0; r < H::N(40); r++) {	// random polynomials of the exact degree, start values, visits
		double c[6][6], exact = 0; T st = (T)(r % 2 ? U() * 10 : 0); for (int a = 0; a <= D; a++) for (int b = 0; b <= (K == 2 ? D - a : 0); b++) { c[a][b] = U() * 4; exact += c[a][b] * (K == 1 ? 1. / (a + 1) : fact(a) * fact(b) / fact(a + b + 2)); }
		auto pol = [&](const V& p) { double r = 0; for (int a = 0; a <= D; a++) for (int b = 0; b <= (K == 2 ? D - a : 0); b++) r += c[a][b] * std::pow((double)p[0], a) * (K == 2 ? std::pow((double)p[K - 1], b) : 1); return (T)r; };
		H::CASE("K=%d order=%d random polynomial of degree %d, start %g", (int)K, (int)O, D, (double)st);
		T v = q.eval(pol, st), w = q.eval_index([&](Index, const V& p) { return pol(p); }, st); CHECK(std::fabs(v - st - exact) <= 60 * tol, "integral is %.17g expected %.17g", (double)v, (double)st + exact); CHECK(std::fabs(w - st - exact) <= 60 * tol, "integral by eval_index is %.17g", (double)w);
		std::vector<int> seen(P.size(), 0), seen2(P.size(), 0); std::vector<T> val; for (size_t i = 0; i < P.size(); i++) val.push_back((T)U()); double want = st; for (size_t i = 0; i < P.size(); i++) want += (double)W[i] * val[i];
		T x = q.eval_index([&](Index i, const V& p) { CHECK(i < P.size() && p[0] == P[i][0] && p[K - 1] == P[i][K - 1], "index %d does not belong to the point", (int)i); seen[i]++; return val[i]; }, st);
		T y = q.eval([&](const V& p) { size_t k = P.size(); for (size_t i = 0; i < P.size(); i++) if (p[0] == P[i][0] && p[K - 1] == P[i][K - 1]) k = i; CHECK(k < P.size(), "not a point of the rule"); seen2[k]++; return val[k]; }, st);
		for (size_t i = 0; i < P.size(); i++) CHECK(seen[i] == 1 && seen2[i] == 1, "point %d evaluated %d / %d times", (int)i, seen[i], seen2[i]);
		CHECK(std::fabs(x - want) <= 20 * tol && std::fabs(y - want) <= 20 * tol, "weighted sum is %.17g / %.17g expected %.17g", (double)x, (double)y, want);
	}
	std::complex<double> z = GaussLegendreQuadrature<double, K, O>().eval([](const FixedVector<double, K>&) { return std::complex<double>(1, -2); }, std::complex<double>(0, 1)); H::CASE("K=%d order=%d complex integrand", (int)K, (int)O); CHECK(std::abs(z - std::complex<double>(1 / fact(K), 1 - 2 / fact(K))) < 1e-12, "complex integral");
}
template <class T> static void all(double e) { one<T, 1, 1>(e); one<T, 1, 2>(e); one<T, 1, 3>(e); one<T, 2, 1>(e); one<T, 2, 2>(e); one<T, 2, 3>(e); }
TEST(double_) { all<double>(1e-13); }
TEST(float_) { all<float>(1e-6); }
HARNESS_MAIN
