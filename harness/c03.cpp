#include "common.h"
#include "matrix/SparseMatrix.h"
#include "Vector.h"
using namespace NS;
static const int dens[5] = {0, 25, 50, 75, 100};
template <class T> T cj(T x) { return x; }
template <class T> std::complex<T> cj(std::complex<T> x) { return std::conj(x); }
template <class T> NM<T> nt(const NM<T>& a) { NM<T> r(a.c, a.r); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) r(j, i) = a(i, j); return r; }
template <class T> NM<T> nc(NM<T> a) { for (auto& x : a.d) x = cj(x); return a; }
template <class T> NM<T> nmul(const NM<T>& a, const NM<T>& b) { NM<T> r(a.r, b.c); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < b.c; j++) for (size_t k = 0; k < a.c; k++) r(i, j) += a(i, k) * b(k, j); return r; }
template <class T> NM<T> nop(NM<T> a, const NM<T>& b, char o) { for (size_t i = 0; i < a.d.size(); i++) a.d[i] = o == '+' ? a.d[i] + b.d[i] : o == '-' ? a.d[i] - b.d[i] : a.d[i] * b.d[i]; return a; }
template <class T> NM<T> nsc(NM<T> a, T s) { for (auto& x : a.d) x = x * s; return a; }
template <class M, class T> M fill(M m, const NM<T>& r) { for (size_t i = 0; i < r.r; i++) for (size_t j = 0; j < r.c; j++) m.set(i, j, r(i, j)); return m; }
#define EQ(m, r, nm) CHECK(eqm<T>(m, r), "%s gives %s expected %s", nm, strm<T>(m).c_str(), (r).s().c_str())
template <class T, class M> static void bin(M z) {
	NM<T> a = randm<T>(z.rows(), z.columns(), dens[H::ri(0, 4)], -2, 2), b = randm<T>(z.rows(), z.columns(), dens[H::ri(0, 4)], -2, 2); T s = H::Val<T>::r(-3, 3);
	const M A = fill(z, a), B = fill(z, b);
	H::CASE("A=%s B=%s s=%s", a.s().c_str(), b.s().c_str(), H::str(s).c_str());
	EQ(A + B, nop(a, b, '+'), "A+B"); EQ(A - B, nop(a, b, '-'), "A-B"); EQ(A * B, nop(a, b, '*'), "A*B"); EQ(A * s, nsc(a, s), "A*s"); EQ(s * A, nsc(a, s), "s*A"); EQ(-A, nsc(a, T(-1)), "-A");
	EQ(A + A, nop(a, a, '+'), "A+A"); EQ(A - A, nop(a, a, '-'), "A-A"); EQ(A * A, nop(a, a, '*'), "A*A");
	{ M m = A; m += B; EQ(m, nop(a, b, '+'), "A+=B"); m = A; m -= B; EQ(m, nop(a, b, '-'), "A-=B"); m = A; m *= B; EQ(m, nop(a, b, '*'), "A*=B"); m = A; m *= s; EQ(m, nsc(a, s), "A*=s");
	  m = A; m += m; EQ(m, nop(a, a, '+'), "m+=m"); m = A; m -= m; EQ(m, nop(a, a, '-'), "m-=m"); m = A; m *= m; EQ(m, nop(a, a, '*'), "m*=m"); }
	EQ(A.conjugate(), nc(a), "conjugate");
	T tr = 0; for (size_t i = 0; i < std::min(a.r, a.c); i++) tr += a(i, i); CHECK(A.trace() == tr, "trace %s expected %s", H::str(A.trace()).c_str(), H::str(tr).c_str());
	bool eq = a.d == b.d; CHECK((A == B) == eq && (A != B) == !eq && A == A && !(A != A), "equality");
	for (size_t k = 0; k < a.d.size(); k++) { NM<T> c = a; c.d[k] += T(1); M D = fill(z, c); CHECK(!(A == D) && A != D && !(D == A), "equality misses a difference at cell %zu", k); }
	EQ(A, a, "operand A afterwards"); EQ(B, b, "operand B afterwards");
}
template <class T> static void vecs(const SparseMatrix<T>& A, const NM<T>& a) {
	DynamicVector<T> v(a.c), w(a.r); for (size_t i = 0; i < v.size(); i++) v.linear_set(i, H::Val<T>::r(-4, 4)); for (size_t i = 0; i < w.size(); i++) w.linear_set(i, H::Val<T>::r(-4, 4));
	auto p = A.mul(v); CHECK(p.size() == a.r, "mul(vector) length"); for (size_t i = 0; i < a.r; i++) { T s = 0; for (size_t j = 0; j < a.c; j++) s += a(i, j) * v.linear_at(j); CHECK(p.linear_at(i) == s, "mul(vector)[%zu]=%s expected %s", i, H::str(p.linear_at(i)).c_str(), H::str(s).c_str()); }
	auto q = A.mul_left(w); CHECK(q.size() == a.c, "mul_left length"); for (size_t j = 0; j < a.c; j++) { T s = 0; for (size_t i = 0; i < a.r; i++) s += a(i, j) * w.linear_at(i); CHECK(q.linear_at(j) == s, "mul_left[%zu]=%s expected %s", j, H::str(q.linear_at(j)).c_str(), H::str(s).c_str()); }
}
template <class E, class F> static bool throws(F f) { try { f(); } catch (E&) { return true; } return false; }
template <class T, class M> static void cons(const M& m, const char* nm) {	// a stored zero would break later reads
	size_t n = 0; for (size_t i = 0; i < m.rows(); i++) for (size_t j = 0; j < m.columns(); j++) n += m.at(i, j) != T(0);
	CHECK(m.filled_count() == n, "%s: filled_count %zu but %zu non-zero entries", nm, (size_t)m.filled_count(), n);
	size_t k = 0; for (auto it = m.cbegin(); it != m.cend() && k <= n; ++it, ++k) CHECK(*it == m.at(it.row(), it.column()), "%s: iteration", nm); CHECK(k == n, "%s: iteration visits %zu of %zu", nm, k, n);
}
template <class T> static void one(const NM<T>& a, const NM<T>& b, const NM<T>& c, T s) {
	typedef SparseMatrix<T> M; const M A = fill(M(a.r, a.c), a), B = fill(M(b.r, b.c), b), C = fill(M(c.r, c.c), c);	// b same shape as a, c: a.c x *
	H::CASE("A=%s B=%s C=%s s=%s", a.s().c_str(), b.s().c_str(), c.s().c_str(), H::str(s).c_str());
#define E2(e, r) { M q = e; EQ(q, r, #e); cons<T>(q, #e); }
	E2(A + B, nop(a, b, '+')) E2(A - B, nop(a, b, '-')) E2(A * B, nop(a, b, '*')) E2(A * s, nsc(a, s)) E2(s * A, nsc(a, s)) E2(-A, nsc(a, T(-1))) E2(A + A, nop(a, a, '+')) E2(A - A, nop(a, a, '-')) E2(A * A, nop(a, a, '*'))
	E2(A.transpose(), nt(a)) E2(A.conjugate(), nc(a)) E2(A.adjugate(), nc(nt(a))) E2(A.mul(C), nmul(a, c))
	if (a.r == a.c) E2(A.mul(A), nmul(a, a))
	{ M m = A; m += m; EQ(m, nop(a, a, '+'), "m+=m"); cons<T>(m, "m+=m"); m = A; m -= m; EQ(m, nop(a, a, '-'), "m-=m"); cons<T>(m, "m-=m"); m = A; m *= m; EQ(m, nop(a, a, '*'), "m*=m"); cons<T>(m, "m*=m"); m *= s; EQ(m, nsc(nop(a, a, '*'), s), "m*=s"); cons<T>(m, "m*=s"); }
	if (A.filled_count()) { M m = A; NM<T> r = a; auto it = m.begin(); T f = *it; m *= *it; EQ(m, nsc(r, f), "m *= entry of m"); }
	T tr = 0; for (size_t i = 0; i < std::min(a.r, a.c); i++) tr += a(i, i); CHECK(A.trace() == tr, "trace");
	bool eq = a.d == b.d; CHECK((A == B) == eq && (A != B) == !eq && (B == A) == eq && A == A && !(A != A), "equality");
	for (size_t k = 0; k < a.d.size(); k++) { NM<T> d = a; d.d[k] = d.d[k] == T(0) ? T(1) : T(0); M D = fill(M(a.r, a.c), d); CHECK(!(A == D) && A != D && !(D == A), "equality misses that cell %zu is stored in one only", k); d.d[k] = a.d[k] + T(1); D = fill(M(a.r, a.c), d); CHECK(!(A == D) && A != D && !(D == A), "equality misses a different value at cell %zu", k); }
	{ M t = A.transpose(); if (a.r != a.c) CHECK(!(A == t), "equal to a matrix of another shape"); }
	vecs(A, a); EQ(A, a, "A afterwards"); EQ(B, b, "B afterwards"); EQ(C, c, "C afterwards"); cons<T>(A, "A");
	if (a.c != b.r) CHECK(throws<MatrixMulMismatchException>([&] { A.mul(B); }), "mul of shapes that do not fit accepted");
	for (size_t n = 1; n < 7; n++) { DynamicVector<T> v(n); if (n != a.c) CHECK(throws<MatrixMulMismatchException>([&] { A.mul(v); }), "mul(vector) of wrong length accepted"); if (n != a.r) CHECK(throws<MatrixMulMismatchException>([&] { A.mul_left(v); }), "mul_left(vector) of wrong length accepted"); }
}
template <class T> static void rnd() {
	for (int k = 0; k < H::N(300); k++) { size_t R, C; H::shape(6, R, C); int lo = k % 3 ? -2 : -9; one(randm<T>(R, C, dens[H::ri(0, 4)], lo, -lo), randm<T>(R, C, dens[H::ri(0, 4)], lo, -lo), randm<T>(C, R * C > 60 ? H::ri(1, 3) : H::dim(6), dens[H::ri(0, 4)], lo, -lo), H::ri(0, 4) ? H::Val<T>::r(-3, 3) : T(0)); bin<T>(SparseMatrix<T>(R, C)); }
}
TEST(random_double) { rnd<double>(); }
TEST(random_float) { rnd<float>(); }
TEST(random_complex) { rnd<std::complex<double> >(); }
TEST(patterns_2x2) { for (int x = 0; x < 16; x++) for (int y = 0; y < 16; y++) for (int n = 0; n < 3; n++) { NM<double> a(2, 2), b(2, 2); for (int i = 0; i < 4; i++) { if (x >> i & 1) a.d[i] = i + 1; if (y >> i & 1) b.d[i] = n == 0 ? 2 * i + 3 : n == 1 ? -a.d[i] : a.d[i]; } one(a, b, b, 2.0); } }
TEST(patterns_3x3) { for (int x = 0; x < 512; x++) { NM<double> a(3, 3), b(3, 3); for (int i = 0; i < 9; i++) { if (x >> i & 1) a.d[i] = i + 1; } int y = H::ri(0, 511); for (int i = 0; i < 9; i++) if (y >> i & 1) b.d[i] = H::ri(0, 2) ? H::ri(-2, 2) : -a.d[i]; one(a, b, b, -1.0); } }
TEST(special_values) { H::CASE("element-wise product with inf/NaN where the target stores nothing"); double sp[3] = {INFINITY, -INFINITY, NAN}; for (double q : sp) { SparseMatrix<double> a(2, 2), b(2, 2); a.set(0, 0, 2); b.set(0, 0, 3); b.set(1, 1, q); a *= b; CHECK(a.at(0, 0) == 6 && a.at(0, 1) == 0 && a.at(1, 0) == 0, "reads %g %g %g", a.at(0, 0), a.at(0, 1), a.at(1, 0)); } }
HARNESS_MAIN
