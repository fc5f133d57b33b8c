#include "common.h"
#include "matrix/DenseMatrix.h"
#include "matrix/FixedMatrix.h"
using namespace NS;
template <class T, class B, class E> static void walk(const NM<T>& r, std::vector<std::pair<size_t, size_t> > c, B b, E e, const char* nm) {
	size_t k = 0;
	for (auto it = b; it != e; ++it, ++k) {
		CHECK(k < c.size(), "%s visits too many cells", nm); if (k >= c.size()) return;
		CHECK(it.row() == c[k].first && it.column() == c[k].second && *it == r(c[k].first, c[k].second) && it.isValid() && !(it == e), "%s step %zu at (%zu,%zu), expected (%zu,%zu)", nm, k, (size_t)it.row(), (size_t)it.column(), c[k].first, c[k].second);
	}
	CHECK(k == c.size(), "%s visits %zu of %zu cells", nm, k, c.size());
	k = 0; for (auto it = b; it != e && k < c.size() + 1; k++) { auto o = it++; if (k < c.size()) CHECK(o.row() == c[k].first && o.column() == c[k].second, "%s post-increment", nm); }
	CHECK(k == c.size(), "%s post-increment visits %zu of %zu cells", nm, k, c.size());
}
template <class T, class M> static void full(M& m, const NM<T>& r, const char* op) {
	const M& q = m; std::vector<std::pair<size_t, size_t> > all;
	CHECK(q.rows() == r.r && q.columns() == r.c && q.size() == r.r * r.c, "%s: dimensions", op);
	for (size_t i = 0; i < r.r; i++) for (size_t j = 0; j < r.c; j++) {
		T v = r(i, j), w = T(77); all.push_back({i, j});
		CHECK(q.at(i, j) == v, "%s: at(%zu,%zu)=%s expected %s", op, i, j, H::str(q.at(i, j)).c_str(), H::str(v).c_str());
		CHECK(q.linear_at(i * r.c + j) == v, "%s: linear_at(%zu)", op, i * r.c + j);
		CHECK(q.has(i, j) == (v != T(0)) && q.has(i, j, w) == (v != T(0)) && w == v, "%s: has(%zu,%zu)", op, i, j);
	}
	walk(r, all, m.begin(), m.end(), "begin..end"); walk(r, all, q.begin(), q.end(), "const begin..end"); walk(r, all, q.cbegin(), q.cend(), "cbegin..cend");
	for (size_t i = 0; i < r.r; i++) { std::vector<std::pair<size_t, size_t> > c; for (size_t j = 0; j < r.c; j++) c.push_back({i, j}); walk(r, c, m.row_begin(i), m.row_end(i), "row"); walk(r, c, q.row_begin(i), q.row_end(i), "const row"); walk(r, c, q.row_cbegin(i), q.row_cend(i), "crow"); }
	for (size_t j = 0; j < r.c; j++) { std::vector<std::pair<size_t, size_t> > c; for (size_t i = 0; i < r.r; i++) c.push_back({i, j}); walk(r, c, m.column_begin(j), m.column_end(j), "column"); walk(r, c, q.column_begin(j), q.column_end(j), "const column"); walk(r, c, q.column_cbegin(j), q.column_cend(j), "ccolumn"); }
}
template <class T, class M> static void ops(M m) {
	NM<T> r(m.rows(), m.columns()); full(m, r, "new matrix");
	std::string log = std::to_string(r.r) + "x" + std::to_string(r.c) + ":";
	for (int k = 0; k < 20; k++) {
		size_t i = H::ri(0, r.r - 1), j = H::ri(0, r.c - 1); T v = H::ri(0, 3) ? H::Val<T>::r(-3, 3) : T(0);
		std::string p = "(" + std::to_string(i) + "," + std::to_string(j) + "," + H::str(v) + ")";
		switch (H::ri(0, 6)) {
		case 0: log += " set" + p; H::CASE("%s", log.c_str()); m.set(i, j, v); break;
		case 1: log += " linear_set" + p; H::CASE("%s", log.c_str()); m.linear_set(i * r.c + j, v); break;
		case 2: { log += " *begin" + p; H::CASE("%s", log.c_str()); auto it = m.begin(); for (size_t t = 0; t < i * r.c + j; t++) ++it; *it = v; break; }
		case 3: { log += " *row" + p; H::CASE("%s", log.c_str()); auto it = m.row_begin(i); for (size_t t = 0; t < j; t++) ++it; *it = v; break; }
		case 4: { log += " *column" + p; H::CASE("%s", log.c_str()); auto it = m.column_begin(j); for (size_t t = 0; t < i; t++) ++it; *it = v; break; }
		case 5: { log += " set(it)" + p; H::CASE("%s", log.c_str()); auto it = m.begin(); for (size_t t = 0; t < i * r.c + j; t++) ++it; auto x = m.set(it, v); CHECK(x == it, "set(iterator) returns another position"); break; }
		case 6: { v = T(0); log += " erase(it)" + p; H::CASE("%s", log.c_str()); auto it = m.begin(); for (size_t t = 0; t < i * r.c + j; t++) ++it; auto x = m.erase(it); CHECK(x == it, "erase(iterator) returns another position"); break; }
		}
		r(i, j) = v; full(m, r, "after op");
		M c(m); c.set(i, j, v + T(1)); full(m, r, "copy is independent"); 
		{ M o(m); NM<T> s = randm<T>(r.r, r.c, 70); for (size_t a = 0; a < r.r; a++) for (size_t b = 0; b < r.c; b++) o.set(a, b, s(a, b)); m.swap(o); full(m, s, "swap (this)"); full(o, r, "swap (other)"); m.swap(o); full(m, r, "swap back"); }
	}
}
template <class T> static void dense() { for (int k = 0; k < H::N(40); k++) { size_t R, C; H::shape(6, R, C); ops<T>(DenseMatrix<T>(R, C)); } }
TEST(dense_double) { dense<double>(); }
TEST(dense_float) { dense<float>(); }
TEST(dense_complex) { dense<std::complex<double> >(); }
TEST(dense_large) { for (int k = 0; k < H::N(2); k++) { ops<double>(DenseMatrix<double>(37, 3)); ops<double>(DenseMatrix<double>(2, 41)); } }
template <class T> static void fixed() {
	for (int k = 0; k < H::N(6); k++) { ops<T>(FixedMatrix<T, 1, 1>()); ops<T>(FixedMatrix<T, 2, 3>()); ops<T>(FixedMatrix<T, 3, 2>()); ops<T>(FixedMatrix<T, 1, 4>()); ops<T>(FixedMatrix<T, 4, 1>()); ops<T>(FixedMatrix<T, 4, 4>()); ops<T>(FixedMatrix<T, 5, 2>()); }
}
TEST(fixed_double) { fixed<double>(); }
TEST(fixed_float) { fixed<float>(); }
TEST(fixed_complex) { fixed<std::complex<double> >(); }
TEST(dense_swap_dimensions) { DenseMatrix<double> a(2, 3), b(4, 1); NM<double> r(2, 3), s(4, 1); a.set(1, 2, 5); r(1, 2) = 5; b.set(3, 0, 7); s(3, 0) = 7; H::CASE("swap 2x3 with 4x1"); a.swap(b); full(a, s, "swap"); full(b, r, "swap"); a.swap(a); full(a, s, "swap with itself"); }
template <class M> static void rag(const char* nm) {
	H::CASE("%s initialised with {{1,2,3},{4,5,6}}", nm); { M m = {{1, 2, 3}, {4, 5, 6}}; NM<double> r(2, 3); for (int i = 0; i < 6; i++) r.d[i] = i + 1; full(m, r, "init"); }
	H::CASE("%s initialised with {{1},{4,5,6}}", nm); { M m = {{1}, {4, 5, 6}}; NM<double> r(2, 3); r(0, 0) = 1; r(1, 0) = 4; r(1, 1) = 5; r(1, 2) = 6; full(m, r, "ragged"); }
	H::CASE("%s initialised with {{1,2,3},{4}}", nm); { M m = {{1, 2, 3}, {4}}; NM<double> r(2, 3); r(0, 0) = 1; r(0, 1) = 2; r(0, 2) = 3; r(1, 0) = 4; full(m, r, "ragged"); }
	H::CASE("%s initialised with {{1,2,3},{}}", nm); { M m = {{1, 2, 3}, {}}; NM<double> r(2, 3); r(0, 0) = 1; r(0, 1) = 2; r(0, 2) = 3; full(m, r, "ragged"); }
}
TEST(initializer) {
	rag<DenseMatrix<double> >("DenseMatrix"); rag<FixedMatrix<double, 2, 3> >("FixedMatrix<2,3>");
	H::CASE("FixedMatrix<3,4> with fewer rows and columns"); { FixedMatrix<double, 3, 4> m = {{1, 2, 3}, {4, 5}}; NM<double> r(3, 4); r(0, 0) = 1; r(0, 1) = 2; r(0, 2) = 3; r(1, 0) = 4; r(1, 1) = 5; full(m, r, "partial"); }
	H::CASE("DenseMatrix {{1},{2,3},{4,5,6,7},{8}}"); { DenseMatrix<double> m = {{1}, {2, 3}, {4, 5, 6, 7}, {8}}; NM<double> r(4, 4); r(0, 0) = 1; r(1, 0) = 2; r(1, 1) = 3; r(2, 0) = 4; r(2, 1) = 5; r(2, 2) = 6; r(2, 3) = 7; r(3, 0) = 8; full(m, r, "ragged"); }
	H::CASE("complex initialiser"); { typedef std::complex<double> C; DenseMatrix<C> m = {{C(1, 2), C(0, 1)}, {C(3), C(0)}}; NM<C> r(2, 2); r(0, 0) = C(1, 2); r(0, 1) = C(0, 1); r(1, 0) = C(3); full(m, r, "complex"); }
	H::CASE("default DenseMatrix"); { DenseMatrix<double> m; CHECK(m.rows() == 0 && m.columns() == 0 && m.size() == 0 && m.begin() == m.end(), "default matrix"); }
	H::CASE("fixed matrix on dirty stack is zero"); { alignas(16) unsigned char buf[sizeof(FixedMatrix<double, 3, 3>)]; memset(buf, 0xA5, sizeof buf); auto* p = new (buf) FixedMatrix<double, 3, 3>(); full(*p, NM<double>(3, 3), "default"); memset(buf, 0xA5, sizeof buf); p = new (buf) FixedMatrix<double, 3, 3>({{1}, {2, 3}}); NM<double> r(3, 3); r(0, 0) = 1; r(1, 0) = 2; r(1, 1) = 3; full(*p, r, "partial initialiser on dirty memory"); }
}
HARNESS_MAIN
