#include "common.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixConverter.h"
using namespace NS;
template <class M, class T> M fill(M m, const NM<T>& r) { for (size_t i = 0; i < r.r; i++) for (size_t j = 0; j < r.c; j++) if (r(i, j) != T(0)) m.set(i, j, r(i, j)); return m; }
template <class T> static size_t nz(const NM<T>& a) { size_t n = 0; for (auto x : a.d) n += x != T(0); return n; }
template <class T> static void to_sparse_ok(const SparseMatrix<T>& s, const NM<T>& a) {
	CHECK(eqm<T>(s, a), "toSparse gives %s", strm<T>(s).c_str()); CHECK(s.filled_count() == nz(a), "filled count %zu expected %zu", (size_t)s.filled_count(), nz(a));
	size_t n = 0; for (auto it = s.begin(); it != s.end(); ++it) { n++; CHECK(*it != T(0) && *it == a(it.row(), it.column()), "iterated entry at %zu,%zu", (size_t)it.row(), (size_t)it.column()); } CHECK(n == nz(a), "%zu entries iterated, expected %zu", n, nz(a));
}
template <class T> static void one(const NM<T>& a) {
	H::CASE("A=%s", a.s().c_str());
	const DenseMatrix<T> d = fill(DenseMatrix<T>(a.r, a.c), a); const SparseMatrix<T> s = fill(SparseMatrix<T>(a.r, a.c), a);
	SparseMatrix<T> ds = Convert::toSparseMatrix(d); to_sparse_ok<T>(ds, a); CHECK(ds == s, "dense to sparse differs from the sparse matrix");
	DenseMatrix<T> sd = Convert::toDenseMatrix(s); CHECK(eqm<T>(sd, a), "toDense gives %s", strm<T>(sd).c_str()); CHECK(sd == d, "sparse to dense differs");
	CHECK(eqm<T>(Convert::toDenseMatrix(ds), a), "round trip"); to_sparse_ok<T>(Convert::toSparseMatrix(sd), a);
	CHECK(eqm<T>(d, a) && eqm<T>(s, a), "source changed");
}
template <class T> static void all() {
	for (size_t r = 1; r <= 5; r++) for (size_t c = 1; c <= 5; c++) for (int k = 0; k < H::N(6); k++) one<T>(randm<T>(r, c, k * 20 % 101));
	for (int m = 0; m < 512; m++) { NM<T> a(3, 3); for (int k = 0; k < 9; k++) a.d[k] = T((m >> k & 1) * (k + 1)); one<T>(a); }
	for (int m = 0; m < 64; m++) { NM<T> a(2, 3), b(3, 2); for (int k = 0; k < 6; k++) a.d[k] = b.d[k] = T((m >> k & 1) * (k + 1)); one<T>(a); one<T>(b); }
	for (int k = 0; k < H::N(8); k++) one<T>(randm<T>(H::ri(1, 25), H::ri(1, 25), H::ri(0, 100)));
}
TEST(double_) { all<double>(); }
TEST(float_) { all<float>(); }
TEST(complex_) { all<std::complex<double> >(); }
TEST(complex_parts) { typedef std::complex<double> T; for (int m = 0; m < 81; m++) { NM<T> a(2, 2); int x = m; for (auto& v : a.d) { v = x % 3 == 0 ? T(0, 0) : x % 3 == 1 ? T(0, 2) : T(-1, 0); x /= 3; } one<T>(a); } }
TEST(tiny_values) { typedef double T; for (T v : {1e-300, -1e-300, 5e-324, 1e300, -1e-17}) { NM<T> a(2, 3); a(0, 1) = v; a(1, 2) = v; one<T>(a); } }
template <class T, Dimension R, Dimension C> static void fx() { for (int k = 0; k < H::N(20); k++) { NM<T> a = randm<T>(R, C, H::ri(0, 100)); H::CASE("fixed A=%s", a.s().c_str()); const FixedMatrix<T, R, C> f = fill(FixedMatrix<T, R, C>(), a); to_sparse_ok<T>(Convert::toSparseMatrix(f), a); CHECK(eqm<T>(f, a), "source changed"); } }
TEST(fixed) { fx<double, 1, 1>(); fx<double, 2, 3>(); fx<double, 3, 2>(); fx<double, 4, 4>(); fx<std::complex<double>, 2, 2>(); fx<float, 3, 5>(); }
HARNESS_MAIN
