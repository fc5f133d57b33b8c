#include "lin.h"
#include "matrix/MatrixOrder.h"
typedef std::complex<double> Z;
template <class V> static std::string vs(const V& x) { std::string o = "["; for (size_t i = 0; i < x.size(); i++) o += " " + std::to_string((long long)std::real(x[i])); return o + " ]"; }
template <class T> static bool isperm(const DynamicVector<Index>& p, size_t n) { if (p.size() != n) return false; std::vector<char> u(n, 0); for (size_t i = 0; i < n; i++) { if (p[i] >= n || u[p[i]]) return false; u[p[i]] = 1; } return true; }
template <class T> static void order(const NM<T>& a) {
	const SparseMatrix<T> A = fill(SparseMatrix<T>(a.r, a.r), a); H::CASE("A=%s", a.s().c_str()); DynamicVector<Index> p = cuthill_mckee(A), r = r_cuthill_mckee(A);
	CHECK(isperm<T>(p, a.r), "ordering %s is not a permutation", vs(p).c_str()); CHECK(isperm<T>(r, a.r), "reversed ordering %s is not a permutation", vs(r).c_str()); for (size_t i = 0; i < a.r; i++) CHECK(r[i] == p[a.r - 1 - i], "reversed ordering %s of %s", vs(r).c_str(), vs(p).c_str()); CHECK(eqm<T>(A, a), "the input changed");
}
static DynamicVector<Index> rperm(size_t n) { DynamicVector<Index> p(n); for (size_t i = 0; i < n; i++) p[i] = i; for (size_t i = n; i-- > 1;) { size_t k = H::ri(0, (int)i); std::swap(p[i], p[k]); } return p; }
template <class T> static void perm(size_t n, const DynamicVector<Index>& p) {
	NM<T> a = randm<T>(n, n, H::ri(0, 2) ? 60 : 25, -9, 9); const SparseMatrix<T> A = fill(SparseMatrix<T>(n, n), a); const DynamicVector<Index> cp = p; H::CASE("permutation %s A=%s", vs(p).c_str(), a.s().c_str());
	SparseMatrix<T> P = permutation_matrix<T>(cp); CHECK(P.rows() == n && P.columns() == n && P.filled_count() == n, "shape of the permutation matrix"); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) CHECK(P.at(i, j) == T(p[i] == j), "permutation matrix entry %zu,%zu", i, j);
	DynamicVector<Index> q = inverse_permutation(cp); CHECK(q.size() == n, "length of the inverse"); for (size_t i = 0; i < n; i++) CHECK(q[p[i]] == i && p[q[i]] == i, "inverse permutation %s", vs(q).c_str());
	SparseMatrix<T> B = permutate(A, cp); CHECK(B.rows() == n && B.columns() == n, "shape"); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) CHECK(B.at(i, j) == a(p[i], p[j]), "permuted matrix entry %zu,%zu is %s expected %s", i, j, H::str(B.at(i, j)).c_str(), H::str(a(p[i], p[j])).c_str());
	DynamicVector<T> v(n); for (size_t i = 0; i < n; i++) v[i] = H::Val<T>::r(-99, 99); const DynamicVector<T> cv = v; DynamicVector<T> w = permutate(cv, cp); CHECK(w.size() == n, "length"); for (size_t i = 0; i < n; i++) CHECK(w[i] == v[p[i]], "permuted vector %s of %s", vs(w).c_str(), vs(v).c_str());
	SparseMatrix<T> back = permutate(B, q); DynamicVector<T> bw = permutate(w, q); CHECK(eqm<T>(back, a), "permuting back gives %s", strm<T>(back).c_str()); for (size_t i = 0; i < n; i++) CHECK(bw[i] == v[i], "permuting the vector back"); CHECK(eqm<T>(A, a), "the matrix changed"); for (size_t i = 0; i < n; i++) CHECK(cp[i] == p[i] && cv[i] == v[i], "an input changed");
}
TEST(patterns3) { for (int m = 0; m < 512; m++) { NM<double> a(3, 3); for (int i = 0; i < 9; i++) a.d[i] = m >> i & 1; order(a); } }
TEST(graphs4) { for (int m = 0; m < 64; m++) for (int d = 0; d < 16; d++) { NM<double> a(4, 4); int b = 0; for (size_t i = 0; i < 4; i++) { a(i, i) = d >> i & 1; for (size_t j = 0; j < i; j++) a(i, j) = a(j, i) = m >> b++ & 1; } order(a); } }
TEST(graphs5) { for (int m = 0; m < 1024; m++) { NM<double> a(5, 5); int b = 0; for (size_t i = 0; i < 5; i++) { a(i, i) = 1; for (size_t j = 0; j < i; j++) a(i, j) = a(j, i) = m >> b++ & 1; } order(a); } }
template <class T> static void big() { for (int k = 0; k < H::N(150); k++) { size_t n = k % 30 == 7 ? H::ri(26, 140) : H::ri(1, 25); NM<T> a(n, n); int f = H::ri(0, n > 25 ? 6 : 30); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (H::ri(0, 99) < f) { a(i, j) = T(1); if (k % 2) a(j, i) = T(2); } if (k % 3) for (size_t i = 0; i < n; i++) a(i, i) = T(1); order(a); } }
TEST(random_patterns) { big<double>(); big<Z>(); }
TEST(blocks) { for (int k = 0; k < H::N(60); k++) { size_t n = H::ri(2, 20); std::vector<int> c(n); for (auto& x : c) x = H::ri(0, 3); NM<double> a(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (c[i] && c[i] == c[j] && H::ri(0, 1)) a(i, j) = a(j, i) = 1; order(a); } }
TEST(permute) { for (int k = 0; k < H::N(150); k++) { size_t n = H::dim(7); perm<double>(n, rperm(n)); perm<Z>(n, rperm(n)); } DynamicVector<Index> p(4); for (p[0] = 0; p[0] < 4; p[0]++) for (p[1] = 0; p[1] < 4; p[1]++) for (p[2] = 0; p[2] < 4; p[2]++) for (p[3] = 0; p[3] < 4; p[3]++) if (isperm<double>(p, 4)) perm<double>(4, p); }
TEST(shape) { for (int k = 0; k < 30; k++) { size_t n = H::ri(1, 4), m = H::ri(1, 4); if (m == n) m++; SparseMatrix<double> N(n, m), E(n, n); DynamicVector<double> v(n); H::CASE("%zu against %zu", n, m); CHECK(throws<NotSquareException>([&] { cuthill_mckee(N); }) && throws<NotSquareException>([&] { r_cuthill_mckee(N); }) && throws<NotSquareException>([&] { permutate(N, rperm(n)); }), "non-square not rejected"); CHECK(throws<MatrixMulMismatchException>([&] { permutate(E, rperm(m)); }) && throws<VectorSizeMismatchException>([&] { permutate(v, rperm(m)); }), "sizes not rejected"); } }
HARNESS_MAIN
