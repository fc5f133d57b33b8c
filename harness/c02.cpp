#include "common.h"
#include "matrix/SparseMatrix.h"
using namespace NS;
typedef std::vector<std::pair<size_t, size_t> > Cells;
template <class T> static Cells stored(const NM<T>& r, int row = -1, int col = -1) {
	Cells c;
	for (size_t i = 0; i < r.r; i++) for (size_t j = 0; j < r.c; j++) if (r(i, j) != T(0) && (row < 0 || (int)i == row) && (col < 0 || (int)j == col)) c.push_back({i, j});
	return c;
}
template <class T, class B, class E> static void walk(const NM<T>& r, const Cells& c, B b, E e, const char* nm) {
	size_t k = 0;
	for (auto it = b; it != e; ++it, ++k) {
		CHECK(k < c.size(), "%s visits more cells than stored", nm); if (k >= c.size()) return;
		CHECK(it.row() == c[k].first && it.column() == c[k].second, "%s step %zu at (%zu,%zu), expected (%zu,%zu)", nm, k, (size_t)it.row(), (size_t)it.column(), c[k].first, c[k].second);
		CHECK(*it == r(c[k].first, c[k].second), "%s step %zu value", nm, k);
		CHECK(it.isValid(), "%s: iterator on a stored cell claims to be invalid", nm);
		CHECK(!(it == e), "%s: not at end but equal to end", nm);
	}
	CHECK(k == c.size(), "%s visits %zu of %zu cells", nm, k, c.size());
	k = 0; for (auto it = b; it != e; k++) { auto o = it++; if (k < c.size()) CHECK(o.row() == c[k].first && o.column() == c[k].second, "%s: post-increment result", nm); else break; }
	CHECK(k == c.size(), "%s by post-increment visits %zu of %zu cells", nm, k, c.size());
}
template <class T> static void full(SparseMatrix<T>& m, const NM<T>& r) {
	const SparseMatrix<T>& q = m;
	Cells all = stored(r);
	walk(r, all, m.begin(), m.end(), "begin..end"); walk(r, all, q.begin(), q.end(), "const begin..end"); walk(r, all, q.cbegin(), q.cend(), "cbegin..cend");
	for (size_t i = 0; i < r.r; i++) {
		Cells c = stored(r, (int)i);
		walk(r, c, m.row_begin(i), m.row_end(i), "row"); walk(r, c, q.row_begin(i), q.row_end(i), "const row"); walk(r, c, q.row_cbegin(i), q.row_cend(i), "crow");
		CHECK(q.row_filled_count(i) == c.size(), "row_filled_count(%zu)=%zu expected %zu", i, (size_t)q.row_filled_count(i), c.size());
	}
	for (size_t j = 0; j < r.c; j++) {
		Cells c = stored(r, -1, (int)j);
		walk(r, c, m.column_begin(j), m.column_end(j), "column"); walk(r, c, q.column_begin(j), q.column_end(j), "const column"); walk(r, c, q.column_cbegin(j), q.column_cend(j), "ccolumn");
		CHECK(q.column_filled_count(j) == c.size(), "column_filled_count(%zu)=%zu expected %zu", j, (size_t)q.column_filled_count(j), c.size());
	}
}
template <class T> static SparseMatrix<T> mk(const NM<T>& r) { SparseMatrix<T> m(r.r, r.c); for (size_t i = 0; i < r.r; i++) for (size_t j = 0; j < r.c; j++) m.set(i, j, r(i, j)); return m; }
template <class T> static void mutate(const NM<T>& r) {
	Cells c = stored(r);
	for (size_t k = 0; k < c.size(); k++) {
		size_t i = c[k].first, j = c[k].second;
		H::CASE("%s write through iterator at (%zu,%zu)", r.s().c_str(), i, j);
		{ auto m = mk(r); NM<T> s = r; auto it = m.begin(); for (size_t t = 0; t < k; t++) ++it; *it = T(9); s(i, j) = T(9); CHECK(eqm<T>(m, s), "write through whole iterator: %s", strm<T>(m).c_str()); full(m, s); }
		{ auto m = mk(r); NM<T> s = r; auto it = m.row_begin(i); while (it.column() != j) ++it; *it = T(9); s(i, j) = T(9); CHECK(eqm<T>(m, s), "write through row iterator"); }
		{ auto m = mk(r); NM<T> s = r; auto it = m.column_begin(j); while (it.row() != i) ++it; *it = T(9); s(i, j) = T(9); CHECK(eqm<T>(m, s), "write through column iterator"); }
		H::CASE("%s erase at (%zu,%zu)", r.s().c_str(), i, j);
		{ auto m = mk(r); NM<T> s = r; auto it = m.begin(); for (size_t t = 0; t < k; t++) ++it; auto n = m.erase(it); s(i, j) = T(0);
			CHECK(eqm<T>(m, s), "erase leaves %s", strm<T>(m).c_str()); full(m, s);
			if (k + 1 < c.size()) { CHECK(n != m.end() && n.row() == c[k + 1].first && n.column() == c[k + 1].second, "erase returns (%zu,%zu), expected (%zu,%zu)", (size_t)n.row(), (size_t)n.column(), c[k + 1].first, c[k + 1].second); if (n != m.end()) { CHECK(*n == r(n.row(), n.column()), "value behind the erased cell"); } }
			else CHECK(n == m.end(), "erase of the last entry does not return the end"); }
		for (int z = 0; z < 2; z++) { auto m = mk(r); NM<T> s = r; auto it = m.begin(); for (size_t t = 0; t < k; t++) ++it; T v = z ? T(5) : T(0);
			H::CASE("%s set(iterator at (%zu,%zu), %d)", r.s().c_str(), i, j, z ? 5 : 0); m.set(it, v); s(i, j) = v; CHECK(eqm<T>(m, s), "set(iterator,v) leaves %s", strm<T>(m).c_str()); full(m, s); }
	}
	{ H::CASE("%s erase everything in a loop", r.s().c_str()); auto m = mk(r); size_t n = 0; for (auto it = m.begin(); it != m.end() && n < 1000; n++) it = m.erase(it); CHECK(n == c.size() && m.filled_count() == 0, "erasing all took %zu steps", n); full(m, NM<T>(r.r, r.c)); }
	{ H::CASE("%s erase every second entry in a loop", r.s().c_str()); auto m = mk(r); NM<T> s = r; size_t n = 0; for (auto it = m.begin(); it != m.end() && n < 1000; n++) { if (n % 2 == 0) { s(it.row(), it.column()) = T(0); it = m.erase(it); } else ++it; } CHECK(n == c.size() && eqm<T>(m, s), "erasing every second entry: %s", strm<T>(m).c_str()); full(m, s); }
}
TEST(iterate_patterns_3x3) { for (int mask = 0; mask < 512; mask++) { NM<double> r(3, 3); for (int b = 0; b < 9; b++) if (mask >> b & 1) r.d[b] = b + 1; H::CASE("%s", r.s().c_str()); auto m = mk(r); full(m, r); mutate(r); } }
TEST(iterate_patterns_2x4) { for (int mask = 0; mask < 256; mask++) for (int t = 0; t < 2; t++) { NM<double> r(t ? 4 : 2, t ? 2 : 4); for (int b = 0; b < 8; b++) if (mask >> b & 1) r.d[b] = b + 1; H::CASE("%s", r.s().c_str()); auto m = mk(r); full(m, r); if (mask % 3 == 0) mutate(r); } }
template <class T> static void rnd() { for (int k = 0; k < H::N(60); k++) { size_t R_, C_; H::shape(9, R_, C_); NM<T> r = randm<T>(R_, C_, H::ri(5, 90)); H::CASE("%s", r.s().c_str()); auto m = mk(r); full(m, r); if (k % 4 == 0) mutate(r); } }
TEST(iterate_double) { rnd<double>(); }
TEST(iterate_float) { rnd<float>(); }
TEST(iterate_complex) { rnd<std::complex<double> >(); }
TEST(compare_iterators) {
	NM<double> r = randm<double>(4, 5, 60, 1, 5); auto m = mk(r); Cells c = stored(r);
	for (size_t a = 0; a <= c.size(); a++) for (size_t b = 0; b <= c.size(); b++) { H::CASE("%s positions %zu, %zu", r.s().c_str(), a, b); auto x = m.begin(), y = m.begin(); for (size_t t = 0; t < a; t++) ++x; for (size_t t = 0; t < b; t++) ++y; CHECK((x == y) == (a == b) && (x != y) == (a != b), "iterator comparison"); }
}
HARNESS_MAIN
