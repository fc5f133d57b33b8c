#include "common.h"
#include "Simplex.h"
using namespace NS;
static double U() { return H::ri(-1000000, 1000000) / 1e6; }
struct Tri { double x[3], y[3], s; double det() const { return (x[1] - x[0]) * (y[2] - y[0]) - (y[1] - y[0]) * (x[2] - x[0]); } double d2(int i, int j) const { return (x[i] - x[j]) * (x[i] - x[j]) + (y[i] - y[j]) * (y[i] - y[j]); } };
// a triangle of size s that is not too flat
static Tri tri(double s, double off) { for (;;) { Tri t; t.s = s; double ox = U() * off * s, oy = U() * off * s; for (int i = 0; i < 3; i++) { t.x[i] = ox + U() * s; t.y[i] = oy + U() * s; } double m = std::max(t.d2(0, 1), std::max(t.d2(0, 2), t.d2(1, 2))); if (std::fabs(t.det()) > 0.15 * m && m > 0.2 * s * s) return t; } }
template <class T> static void one(const Tri& r, double tol) {
	typedef Simplex<T, 2> S; typedef typename S::vertex_t V; Tri t = r; for (int i = 0; i < 3; i++) { t.x[i] = (T)r.x[i]; t.y[i] = (T)r.y[i]; }
	H::CASE("triangle (%.17g,%.17g) (%.17g,%.17g) (%.17g,%.17g)", t.x[0], t.y[0], t.x[1], t.y[1], t.x[2], t.y[2]);
	S s = H::ri(0, 1) ? S{{(T)t.x[0], (T)t.y[0]}, {(T)t.x[1], (T)t.y[1]}, {(T)t.x[2], (T)t.y[2]}} : S(); for (int i = 0; i < 3; i++) { s[i][0] = (T)t.x[i]; s[i][1] = (T)t.y[i]; } s.prepare(); if (H::ri(0, 3) == 0) s.prepare();
	const S& c = s; const double L = t.s, D = t.det(); double off = 1; for (int i = 0; i < 3; i++) off = std::max(off, std::max(std::fabs(t.x[i]), std::fabs(t.y[i])) / L);
	const double e = tol * off;	// relative error allowed
	auto near = [&](double a, double b, double sc) { return std::fabs(a - b) <= e * sc; };
	for (int i = 0; i < 3; i++) CHECK(c[i][0] == (T)t.x[i] && c[i][1] == (T)t.y[i], "vertex %d changed", i);
	CHECK(near(c.matrix().at(0, 0), t.x[1] - t.x[0], L) && near(c.matrix().at(0, 1), t.x[2] - t.x[0], L) && near(c.matrix().at(1, 0), t.y[1] - t.y[0], L) && near(c.matrix().at(1, 1), t.y[2] - t.y[0], L), "matrix is not made of the edges");
	for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { double v = 0, w = 0; for (int k = 0; k < 2; k++) { v += (double)c.matrix().at(i, k) * (double)c.inverseMatrix().at(k, j); w += (double)c.inverseMatrix().at(i, k) * (double)c.matrix().at(k, j); } CHECK(near(v, i == j, 10) && near(w, i == j, 10), "inverse matrix: product entry %d,%d is %g / %g", i, j, v, w); }
	CHECK(near(c.determinant(), D, L * L), "determinant %g expected %g", (double)c.determinant(), D);
	CHECK(near(c.volume(), std::fabs(D) / 2, L * L), "volume %g expected %g", (double)c.volume(), std::fabs(D) / 2); CHECK(S::unitVolume() == (T)0.5, "unit volume");
	double dm = std::sqrt(std::max(t.d2(0, 1), std::max(t.d2(0, 2), t.d2(1, 2)))); CHECK(near(c.diameter(), dm, L), "diameter %g expected %g", (double)c.diameter(), dm);
	V m = c.center(); double R = std::sqrt(t.d2(0, 1)) * std::sqrt(t.d2(0, 2)) * std::sqrt(t.d2(1, 2)) / (2 * std::fabs(D));
	for (int i = 0; i < 3; i++) { double d = std::hypot((double)m[0] - t.x[i], (double)m[1] - t.y[i]); CHECK(near(d, R, 50 * L), "centre (%g,%g): distance %g to vertex %d, circumradius %g", (double)m[0], (double)m[1], d, i, R); }
	CHECK(near(c.outerRadius(), R, 50 * L), "outer radius %g expected %g", (double)c.outerRadius(), R);
	for (int i = 0; i < 3; i++) { int j = (i + 1) % 3, k = (i + 2) % 3; V f = c.faceCenter(i); CHECK(near(f[0], (t.x[j] + t.x[k]) / 2, L * off) && near(f[1], (t.y[j] + t.y[k]) / 2, L * off), "face centre %d is (%g,%g)", i, (double)f[0], (double)f[1]); }
	for (int i = 0; i < 3; i++) { V g = c.gradient(i); for (int j = 0; j < 3; j++) { double v = (double)g[0] * (t.x[j] - t.x[i]) + (double)g[1] * (t.y[j] - t.y[i]); CHECK(near(v, j == i ? 0 : -1, 20), "gradient %d towards vertex %d is %g", i, j, v); } }
	for (int k = 0; k < 6; k++) {
		double a = k == 1 ? 1 : k < 3 ? 0 : U() * 3, b = k == 2 ? 1 : k < 3 ? 0 : U() * 3; V l; l[0] = (T)a; l[1] = (T)b; a = l[0]; b = l[1];
		double gx = t.x[0] + a * (t.x[1] - t.x[0]) + b * (t.x[2] - t.x[0]), gy = t.y[0] + a * (t.y[1] - t.y[0]) + b * (t.y[2] - t.y[0]);
		V g = c.toGlobal(l); CHECK(near(g[0], gx, 10 * L * off) && near(g[1], gy, 10 * L * off), "toGlobal(%g,%g) is (%g,%g) expected (%g,%g)", a, b, (double)g[0], (double)g[1], gx, gy);
		V back = c.toLocal(g); CHECK(near(back[0], a, 50 * off) && near(back[1], b, 50 * off), "toLocal(toGlobal(%g,%g)) is (%g,%g)", a, b, (double)back[0], (double)back[1]);
		V p; p[0] = (T)gx; p[1] = (T)gy; V q = c.toGlobal(c.toLocal(p)); CHECK(near(q[0], gx, 50 * L * off) && near(q[1], gy, 50 * L * off), "toGlobal(toLocal(%g,%g)) is (%g,%g)", gx, gy, (double)q[0], (double)q[1]);
	}
	for (int i = 0; i < 3; i++) CHECK(c[i][0] == (T)t.x[i] && c[i][1] == (T)t.y[i], "vertex %d changed", i);
}
template <class T> static void all(double tol, int lo, int hi) { for (int k = 0; k < H::N(250); k++) one<T>(tri(std::pow(10.0, H::ri(lo, hi)), k % 3 == 0 ? 0 : k % 3 == 1 ? 3 : 30), tol); }
TEST(double_) { all<double>(1e-12, -8, 6); }
TEST(float_) { all<float>(2e-5, -3, 3); }
// axis-parallel, reference and swapped triangles, every corner order
TEST(special) {
	double P[][6] = {{0, 0, 1, 0, 0, 1}, {1, 1, 3, 1, 1, 4}, {-2, 0, 0, -2, 0, 2}, {0, 0, 1e-9, 0, 0, 1e-9}, {5, 5, 5, 7, 8, 5}, {0, 0, 2, 0, 1, 2}, {1e5, 0, 1e5 + 1, 0, 1e5, 1}, {0, 0, 3, 0, 3, 4}, {0, 0, 1, 1, -1, 1}};
	int o[][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	for (auto& p : P) for (auto& q : o) { Tri t; double m = 0; for (int i = 0; i < 3; i++) { t.x[i] = p[2 * q[i]]; t.y[i] = p[2 * q[i] + 1]; } t.s = 0; m = std::max(t.d2(0, 1), std::max(t.d2(0, 2), t.d2(1, 2))); t.s = std::sqrt(m); one<double>(t, 1e-12); }
}
TEST(reuse) { typedef Simplex<double, 2> S; for (int k = 0; k < 60; k++) { Tri a = tri(1, 2), b = tri(1, 2); S s; for (int i = 0; i < 3; i++) { s[i][0] = a.x[i]; s[i][1] = a.y[i]; } s.prepare(); for (int i = 0; i < 3; i++) { s[i][0] = b.x[i]; s[i][1] = b.y[i]; } s.prepare(); S t; for (int i = 0; i < 3; i++) { t[i][0] = b.x[i]; t[i][1] = b.y[i]; } t.prepare(); H::CASE("prepare again"); CHECK(H::close(s.determinant(), t.determinant()) && H::close(s.volume(), b.det() < 0 ? -b.det() / 2 : b.det() / 2), "determinant after the second prepare"); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) CHECK(H::close(s.matrix().at(i, j), t.matrix().at(i, j)) && H::close(s.inverseMatrix().at(i, j), t.inverseMatrix().at(i, j)), "matrices after the second prepare"); } }
HARNESS_MAIN
