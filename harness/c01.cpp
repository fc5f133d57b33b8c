#include "common.h"
#include "matrix/SparseMatrix.h"
using namespace NS;
template <class T> static void verify(const SparseMatrix<T>& m, const NM<T>& r, const char* op) {
	CHECK(m.rows() == r.r && m.columns() == r.c && m.size() == r.r * r.c, "%s: dimensions changed", op);
	size_t cnt = 0;
	for (size_t i = 0; i < r.r; i++) for (size_t j = 0; j < r.c; j++) {
		T v = m.at(i, j), w = 0; bool z = r(i, j) != T(0); cnt += z;
		CHECK(v == r(i, j), "%s: at(%zu,%zu)=%s expected %s", op, i, j, H::str(v).c_str(), H::str(r(i, j)).c_str());
		CHECK(m.linear_at(i * r.c + j) == r(i, j), "%s: linear_at(%zu) wrong", op, i * r.c + j);
		CHECK(m.has(i, j) == z, "%s: has(%zu,%zu)=%d", op, i, j, (int)m.has(i, j));
		CHECK(m.has(i, j, w) == z && w == r(i, j), "%s: has(%zu,%zu,v) wrong", op, i, j);
	}
	CHECK(m.filled_count() == cnt, "%s: filled_count %zu expected %zu", op, (size_t)m.filled_count(), cnt);
	CHECK(m.empty() == (cnt == 0), "%s: empty() wrong", op);
	CHECK(m.has_zero() == (cnt != r.r * r.c), "%s: has_zero() wrong", op);
}
template <class T> static void ops() {
	for (int rep = 0; rep < H::N(150); rep++) {
		size_t R, C; H::shape(5, R, C);
		SparseMatrix<T> m(R, C, rep % 3 ? 0 : 4), m2(C, R + 1); NM<T> r(R, C), r2(C, R + 1);
		std::string log = std::to_string(R) + "x" + std::to_string(C) + ":";
		for (int k = 0; k < 25; k++) {
			size_t i = H::ri(0, (int)r.r - 1), j = H::ri(0, (int)r.c - 1); T v = H::ri(0, 2) ? H::Val<T>::r(-3, 3) : T(0);
			int op = H::ri(0, 19);
			if (op < 10) { log += " set(" + std::to_string(i) + "," + std::to_string(j) + "," + H::str(v) + ")"; H::CASE("%s", log.c_str()); m.set(i, j, v); r(i, j) = v; }
			else if (op < 18) { log += " linear_set(" + std::to_string(i * r.c + j) + "," + H::str(v) + ")"; H::CASE("%s", log.c_str()); m.linear_set(i * r.c + j, v); r(i, j) = v; }
			else if (op == 18) { log += " swap"; H::CASE("%s", log.c_str()); m.swap(m2); std::swap(r, r2); }
			else { log += " copy"; H::CASE("%s", log.c_str()); SparseMatrix<T> t(m); t.set(i, j, v); verify(m, r, "copy source"); SparseMatrix<T> u; u = m; m = u; }
			verify(m, r, "after op"); verify(m2, r2, "other matrix");
		}
	}
}
// every order of filling up to 5 cells of a 3x3 matrix, then removing
TEST(sparse_exhaustive) {
	int cells[9]; 
	for (int mask = 0; mask < 512; mask++) {
		std::vector<int> c; for (int b = 0; b < 9; b++) if (mask >> b & 1) c.push_back(b);
		for (int ord = 0; ord < 3; ord++) {
			std::vector<int> o = c; if (ord == 1) std::vector<int>(c.rbegin(), c.rend()).swap(o); if (ord == 2) for (size_t k = 0; k < o.size(); k++) std::swap(o[k], o[(k * 5 + 3) % o.size()]);
			SparseMatrix<double> m(3, 3); NM<double> r(3, 3);
			for (int b : o) { H::CASE("mask %d order %d set cell %d", mask, ord, b); m.set(b / 3, b % 3, b + 1); r(b / 3, b % 3) = b + 1; }
			verify(m, r, "filled");
			for (int b = 0; b < 9; b++) {
				SparseMatrix<double> q = m; NM<double> s = r; H::CASE("mask %d order %d clear cell %d", mask, ord, b);
				q.set(b / 3, b % 3, 0); s(b / 3, b % 3) = 0; verify(q, s, "cleared");
				SparseMatrix<double> q2 = m; NM<double> s2 = r; q2.linear_set(b, 7); s2(b / 3, b % 3) = 7; verify(q2, s2, "written");
			}
		}
	}
}
TEST(sparse_ops_double) { ops<double>(); }
TEST(sparse_ops_float) { ops<float>(); }
TEST(sparse_ops_complex) { ops<std::complex<double> >(); }
TEST(sparse_tall_wide) {
	for (int k = 0; k < H::N(20); k++) {
		size_t R = H::ri(1, 40), C = H::ri(1, 40); SparseMatrix<double> m(R, C); NM<double> r(R, C);
		for (int t = 0; t < 200; t++) { size_t i = H::ri(0, R - 1), j = H::ri(0, C - 1); double v = H::ri(0, 3) ? H::ri(-9, 9) : 0; H::CASE("%zux%zu step %d set(%zu,%zu,%g) seed-run %d", R, C, t, i, j, v, k); m.set(i, j, v); r(i, j) = v; }
		verify(m, r, "large");
	}
}
TEST(sparse_initializer) {
	H::CASE("initializer lists");
	SparseMatrix<double> a = {{1, 0, 2}, {0, 0, 0}, {0, 3, 0}}; NM<double> r(3, 3); r(0, 0) = 1; r(0, 2) = 2; r(2, 1) = 3; verify(a, r, "init");
	SparseMatrix<double> b = {{0, 5}}; NM<double> s(1, 2); s(0, 1) = 5; verify(b, s, "init");
	SparseMatrix<double> c = {{1}, {2, 3, 4}, {0, 6}}; NM<double> t(3, 3); t(0, 0) = 1; t(1, 0) = 2; t(1, 1) = 3; t(1, 2) = 4; t(2, 1) = 6; verify(c, t, "ragged");
	SparseMatrix<double> e; NM<double> u(0, 0); verify(e, u, "default");
}
HARNESS_MAIN
