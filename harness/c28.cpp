#include "common.h"
#include "Simplex.h"
using namespace NS;
static double U() { return H::ri(-1000000, 1000000) / 1e6; }
template <class T, int K> static double dot(const FixedVector<T, K>& n, const double* v) { double s = 0; for (int i = 0; i < K; i++) s += (double)n[i] * v[i]; return s; }
template <class T, int K> static void nrm(double (&v)[K - 1][K], double tol) {
	std::array<FixedVector<T, K>, K - 1> a; std::string d; double len[K - 1];
	for (int i = 0; i < K - 1; i++) { len[i] = 0; d += " ("; for (int j = 0; j < K; j++) { a[i][j] = (T)v[i][j]; v[i][j] = (T)v[i][j]; len[i] += v[i][j] * v[i][j]; d += H::str(v[i][j]) + (j + 1 < K ? "," : ")"); } len[i] = std::sqrt(len[i]); }
	H::CASE("normal of%s", d.c_str()); const auto b = a; FixedVector<T, K> n = Math::normal(b); double s = 0; for (int i = 0; i < K; i++) s += (double)n[i] * (double)n[i];
	CHECK(H::close(s, 1.0, tol), "squared length %g", s); for (int i = 0; i < K - 1; i++) CHECK(std::fabs(dot<T, K>(n, v[i])) <= tol * len[i], "not orthogonal to vector %d: %g", i, dot<T, K>(n, v[i]));
}
template <class T> static void n2(double tol) { for (int k = 0; k < H::N(200); k++) { double s = std::pow(10.0, H::ri(-6, 6)); double v[1][2] = {{U() * s, U() * s}}; if (k % 10 == 0) v[0][k / 10 % 2] = 0; if (v[0][0] == 0 && v[0][1] == 0) continue; nrm<T, 2>(v, tol); } double q[][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {3, 4}, {1e-8, 0}, {0, 1e-8}, {1e-12, 1}, {1, 1e-12}, {1e10, -1e10}}; for (auto& x : q) { double v[1][2] = {{x[0], x[1]}}; nrm<T, 2>(v, tol); } }
static bool ok3(double (&v)[2][3], double s) { double c[3] = {v[0][1] * v[1][2] - v[0][2] * v[1][1], v[0][2] * v[1][0] - v[0][0] * v[1][2], v[0][0] * v[1][1] - v[0][1] * v[1][0]}; return c[0] * c[0] + c[1] * c[1] + c[2] * c[2] > 0.02 * s * s * s * s; }
template <class T> static void n3(double tol) {
	for (int k = 0; k < H::N(300); k++) { double s = std::pow(10.0, H::ri(-2, 4)); double v[2][3]; for (auto& r : v) for (auto& x : r) x = U() * s; if (k % 4 == 1) for (auto& r : v) for (auto& x : r) if (H::ri(0, 2) == 0) x = 0; if (k % 4 == 2) for (auto& r : v) for (auto& x : r) x = H::ri(-2, 2) * s; if (!ok3(v, s)) continue; nrm<T, 3>(v, tol); }
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (i != j) for (int g = 0; g < 4; g++) { double v[2][3] = {}; v[0][i] = g & 1 ? -1 : 1; v[1][j] = g & 2 ? -2 : 2; nrm<T, 3>(v, tol); }
}
// several dimensions: integer vectors, the cofactors are exact; spanning sets with a small Gram determinant are skipped
template <class T, int K> static void nk(double tol) {
	for (int k = 0; k < H::N(150); k++) {
		double s = std::pow(10.0, H::ri(-1, 2)), v[K - 1][K], g[K - 1][K - 1], len = 1; for (auto& r : v) for (auto& x : r) x = H::ri(-4, 4) * s;
		for (int i = 0; i < K - 1; i++) for (int j = 0; j < K - 1; j++) { g[i][j] = 0; for (int c = 0; c < K; c++) g[i][j] += v[i][c] * v[j][c]; if (i == j) len *= g[i][j]; }
		double det = 1; for (int p = 0; p < K - 1; p++) { det *= g[p][p]; if (g[p][p] <= 0) break; for (int i = p + 1; i < K - 1; i++) { double f = g[i][p] / g[p][p]; for (int j = p; j < K - 1; j++) g[i][j] -= f * g[p][j]; } }
		if (!(det > 0.02 * len)) continue; nrm<T, K>(v, tol);
	}
}
TEST(dim4_double) { nk<double, 4>(1e-10); }
TEST(dim5_double) { nk<double, 5>(1e-9); }
TEST(dim4_float) { nk<float, 4>(1e-3); }
TEST(plane_double) { n2<double>(1e-12); }
TEST(plane_float) { n2<float>(1e-5); }
TEST(space_double) { n3<double>(1e-10); }
TEST(space_float) { n3<float>(1e-4); }
template <class T> static void face(const double (&p)[3][2], double tol) {
	Simplex<T, 2> s; double x[3], y[3]; for (int i = 0; i < 3; i++) { s[i][0] = (T)p[i][0]; s[i][1] = (T)p[i][1]; x[i] = (T)p[i][0]; y[i] = (T)p[i][1]; }
	H::CASE("triangle (%.17g,%.17g) (%.17g,%.17g) (%.17g,%.17g)", x[0], y[0], x[1], y[1], x[2], y[2]); s.prepare(); const Simplex<T, 2>& c = s;
	for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; auto n = c.faceNormal(i); double l = std::hypot((double)n[0], (double)n[1]), ex = x[k] - x[j], ey = y[k] - y[j], e = std::hypot(ex, ey);
		CHECK(H::close(l, 1.0, tol), "face %d: length %g", i, l); CHECK(std::fabs(n[0] * ex + n[1] * ey) <= tol * e, "face %d: normal (%g,%g) not orthogonal", i, (double)n[0], (double)n[1]); CHECK((double)n[0] * (x[j] - x[i]) + (double)n[1] * (y[j] - y[i]) > 0, "face %d: normal (%g,%g) points towards vertex %d", i, (double)n[0], (double)n[1], i); }
}
template <class T> static void faces(double tol) {
	for (int k = 0; k < H::N(300); k++) { double s = std::pow(10.0, H::ri(sizeof(T) == 8 ? -12 : -4, 4)), ox = U() * s * (k % 3) * 5, oy = U() * s * (k % 3) * 5; double p[3][2]; for (auto& q : p) { q[0] = ox + U() * s; q[1] = oy + U() * s; } if (std::fabs((p[1][0] - p[0][0]) * (p[2][1] - p[0][1]) - (p[1][1] - p[0][1]) * (p[2][0] - p[0][0])) < 0.1 * s * s) continue; face<T>(p, tol); }
	int o[][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; double P[][3][2] = {{{0, 0}, {1, 0}, {0, 1}}, {{0, 0}, {-1, 0}, {0, -1}}, {{1, 1}, {3, 1}, {2, 5}}, {{0, 0}, {0, 1}, {10, 0.5}}, {{-4, -4}, {4, -4}, {0, 8}}, {{0, 0}, {8, 0}, {7, 1}}, {{0, 0}, {1, 0}, {9, 1}}, {{0, 0}, {0, 1}, {1, 9}}, {{0, 0}, {1, 1}, {9, 8}}};
	for (auto& q : P) for (auto& r : o) { double p[3][2]; for (int i = 0; i < 3; i++) { p[i][0] = q[r[i]][0]; p[i][1] = q[r[i]][1]; } face<T>(p, tol); }
}
TEST(faces_double) { faces<double>(1e-10); }
TEST(faces_float) { faces<float>(1e-4); }
HARNESS_MAIN
