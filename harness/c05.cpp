#include "common.h"
#include "matrix/DenseMatrix.h"
#include "matrix/FixedMatrix.h"
#include "Vector.h"
using namespace NS;
template <class T> T cj(T x) { return x; }
template <class T> std::complex<T> cj(std::complex<T> x) { return std::conj(x); }
template <class T> NM<T> nt(const NM<T>& a) { NM<T> r(a.c, a.r); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) r(j, i) = a(i, j); return r; }
template <class T> NM<T> nc(NM<T> a) { for (auto& x : a.d) x = cj(x); return a; }
template <class T> NM<T> nmul(const NM<T>& a, const NM<T>& b) { NM<T> r(a.r, b.c); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < b.c; j++) for (size_t k = 0; k < a.c; k++) r(i, j) += a(i, k) * b(k, j); return r; }
template <class T> NM<T> nop(NM<T> a, const NM<T>& b, char o) { for (size_t i = 0; i < a.d.size(); i++) a.d[i] = o == '+' ? a.d[i] + b.d[i] : o == '-' ? a.d[i] - b.d[i] : a.d[i] * b.d[i]; return a; }
template <class T> NM<T> nsc(NM<T> a, T s) { for (auto& x : a.d) x = x * s; return a; }
template <class M, class T> M fill(M m, const NM<T>& r) { for (size_t i = 0; i < r.r; i++) for (size_t j = 0; j < r.c; j++) m.set(i, j, r(i, j)); return m; }
#define EQ(m, r, nm) CHECK(eqm<T>(m, r), "%s gives %s expected %s", nm, strm<T>(m).c_str(), (r).s().c_str())
template <class T, class M> static void bin(M z) {
	NM<T> a = randm<T>(z.rows(), z.columns(), 80), b = randm<T>(z.rows(), z.columns(), 80); T s = H::Val<T>::r(-3, 3);
	const M A = fill(z, a), B = fill(z, b);
	H::CASE("A=%s B=%s s=%s", a.s().c_str(), b.s().c_str(), H::str(s).c_str());
	EQ(A + B, nop(a, b, '+'), "A+B"); EQ(A - B, nop(a, b, '-'), "A-B"); EQ(A * B, nop(a, b, '*'), "A*B"); EQ(A * s, nsc(a, s), "A*s"); EQ(s * A, nsc(a, s), "s*A"); EQ(-A, nsc(a, T(-1)), "-A");
	EQ(A + A, nop(a, a, '+'), "A+A"); EQ(A - A, nop(a, a, '-'), "A-A"); EQ(A * A, nop(a, a, '*'), "A*A");
	{ M m = A; m += B; EQ(m, nop(a, b, '+'), "A+=B"); m = A; m -= B; EQ(m, nop(a, b, '-'), "A-=B"); m = A; m *= B; EQ(m, nop(a, b, '*'), "A*=B"); m = A; m *= s; EQ(m, nsc(a, s), "A*=s");
	  m = A; m += m; EQ(m, nop(a, a, '+'), "m+=m"); m = A; m -= m; EQ(m, nop(a, a, '-'), "m-=m"); m = A; m *= m; EQ(m, nop(a, a, '*'), "m*=m"); }
	EQ(A.conjugate(), nc(a), "conjugate");
	T tr = 0; for (size_t i = 0; i < std::min(a.r, a.c); i++) tr += a(i, i); CHECK(A.trace() == tr, "trace %s expected %s", H::str(A.trace()).c_str(), H::str(tr).c_str());
	bool eq = a.d == b.d; CHECK((A == B) == eq && (A != B) == !eq && A == A && !(A != A), "equality");
	for (size_t k = 0; k < a.d.size(); k++) { NM<T> c = a; c.d[k] += T(1); M D = fill(z, c); CHECK(!(A == D) && A != D && !(D == A), "equality misses a difference at cell %zu", k); }
	EQ(A, a, "operand A afterwards"); EQ(B, b, "operand B afterwards");
}
template <class T> static void vecs(const DenseMatrix<T>& A, const NM<T>& a) {
	DynamicVector<T> v(a.c), w(a.r); for (size_t i = 0; i < v.size(); i++) v.linear_set(i, H::Val<T>::r(-4, 4)); for (size_t i = 0; i < w.size(); i++) w.linear_set(i, H::Val<T>::r(-4, 4));
	auto p = A.mul(v); CHECK(p.size() == a.r, "mul(vector) length"); for (size_t i = 0; i < a.r; i++) { T s = 0; for (size_t j = 0; j < a.c; j++) s += a(i, j) * v.linear_at(j); CHECK(p.linear_at(i) == s, "mul(vector)[%zu]=%s expected %s", i, H::str(p.linear_at(i)).c_str(), H::str(s).c_str()); }
	auto q = A.mul_left(w); CHECK(q.size() == a.c, "mul_left length"); for (size_t j = 0; j < a.c; j++) { T s = 0; for (size_t i = 0; i < a.r; i++) s += a(i, j) * w.linear_at(i); CHECK(q.linear_at(j) == s, "mul_left[%zu]=%s expected %s", j, H::str(q.linear_at(j)).c_str(), H::str(s).c_str()); }
}
template <class E, class F> static bool throws(F f) { try { f(); } catch (E&) { return true; } return false; }
template <class T> static void dense() {
	for (int k = 0; k < H::N(150); k++) {
		size_t R, C, K = H::dim(5); H::shape(5, R, C); bin<T>(DenseMatrix<T>(R, C));
		NM<T> a = randm<T>(R, C, 80), b = randm<T>(C, K, 80); DenseMatrix<T> A = fill(DenseMatrix<T>(R, C), a), B = fill(DenseMatrix<T>(C, K), b);
		H::CASE("A=%s B=%s", a.s().c_str(), b.s().c_str());
		EQ(A.mul(B), nmul(a, b), "mul"); EQ(A.transpose(), nt(a), "transpose"); EQ(A.adjugate(), nc(nt(a)), "adjugate"); vecs(A, a);
		if (R == C) EQ(A.mul(A), nmul(a, a), "A.mul(A)");
		EQ(A, a, "A afterwards"); EQ(B, b, "B afterwards");
		// shapes that do not fit
		size_t R2 = H::ri(1, 6), C2 = H::ri(1, 6); NM<T> c = randm<T>(R2, C2, 90); DenseMatrix<T> D = fill(DenseMatrix<T>(R2, C2), c);
		H::CASE("A=%s D=%s", a.s().c_str(), c.s().c_str());
		if (R2 != R || C2 != C) {
			DenseMatrix<T> m = A;
			CHECK(throws<MatrixSizeMismatchException>([&] { m += D; }), "+= of different shapes accepted"); EQ(m, a, "target after rejected +=");
			CHECK(throws<MatrixSizeMismatchException>([&] { m -= D; }), "-= of different shapes accepted"); EQ(m, a, "target after rejected -=");
			CHECK(throws<MatrixSizeMismatchException>([&] { m *= D; }), "*= of different shapes accepted"); EQ(m, a, "target after rejected *=");
			CHECK(throws<MatrixSizeMismatchException>([&] { (void)(A == D); }), "== of different shapes accepted"); CHECK(throws<MatrixSizeMismatchException>([&] { (void)(A != D); }), "!= of different shapes accepted");
			CHECK(throws<MatrixSizeMismatchException>([&] { (void)(A + D); }), "+ of different shapes accepted"); CHECK(throws<MatrixSizeMismatchException>([&] { (void)(A - D); }), "- of different shapes accepted"); CHECK(throws<MatrixSizeMismatchException>([&] { (void)(A * D); }), "* of different shapes accepted");
		}
		if (C != R2) CHECK(throws<MatrixMulMismatchException>([&] { A.mul(D); }), "mul of shapes that do not fit accepted");
		{ DynamicVector<T> v(R2); if (R2 != C) CHECK(throws<MatrixMulMismatchException>([&] { A.mul(v); }), "mul(vector) of wrong length accepted"); if (R2 != R) CHECK(throws<MatrixMulMismatchException>([&] { A.mul_left(v); }), "mul_left(vector) of wrong length accepted"); }
		{ DenseMatrix<T> m(2, 3); FixedMatrix<T, 2, 3> f = fill(FixedMatrix<T, 2, 3>(), randm<T>(2, 3, 90)); NM<T> fm(2, 3); for (int i = 0; i < 6; i++) fm.d[i] = f.linear_at(i); NM<T> d = randm<T>(2, 3, 90); m = fill(m, d); m += f; EQ(m, nop(d, fm, '+'), "dense += fixed"); m = fill(m, d); m -= f; EQ(m, nop(d, fm, '-'), "dense -= fixed"); m = fill(m, d); m *= f; EQ(m, nop(d, fm, '*'), "dense *= fixed");
		  DenseMatrix<T> n(3, 2); CHECK(throws<MatrixSizeMismatchException>([&] { n += f; }), "3x2 += fixed 2x3 accepted"); CHECK(throws<MatrixSizeMismatchException>([&] { n -= f; }), "3x2 -= fixed 2x3 accepted"); CHECK(throws<MatrixSizeMismatchException>([&] { n *= f; }), "3x2 *= fixed 2x3 accepted"); }
	}
}
TEST(dense_double) { dense<double>(); }
TEST(dense_float) { dense<float>(); }
TEST(dense_complex) { dense<std::complex<double> >(); }
template <class T, Dimension R, Dimension C> static void fx() {
	typedef FixedMatrix<T, R, C> M; bin<T>(M());
	NM<T> a = randm<T>(R, C, 80), b = randm<T>(C, 3, 80), b2 = randm<T>(C, R, 80); const M A = fill(M(), a);
	FixedMatrix<T, C, 3> B = fill(FixedMatrix<T, C, 3>(), b); FixedMatrix<T, C, R> B2 = fill(FixedMatrix<T, C, R>(), b2);
	H::CASE("fixed A=%s B=%s", a.s().c_str(), b.s().c_str());
	EQ(A.mul(B), nmul(a, b), "mul"); EQ(A.mul(B2), nmul(a, b2), "mul"); EQ(A.transpose(), nt(a), "transpose"); EQ(A.adjugate(), nc(nt(a)), "adjugate");
	FixedVector<T, C> v; FixedVector<T, R> w; for (size_t i = 0; i < v.size(); i++) v.linear_set(i, H::Val<T>::r(-4, 4)); for (size_t i = 0; i < w.size(); i++) w.linear_set(i, H::Val<T>::r(-4, 4));
	auto p = A.mul(v); for (size_t i = 0; i < R; i++) { T s = 0; for (size_t j = 0; j < C; j++) s += a(i, j) * v.linear_at(j); CHECK(p.linear_at(i) == s, "fixed mul(vector)[%zu]", i); }
	auto q = A.mul_left(w); for (size_t j = 0; j < C; j++) { T s = 0; for (size_t i = 0; i < R; i++) s += a(i, j) * w.linear_at(i); CHECK(q.linear_at(j) == s, "fixed mul_left[%zu]", j); }
	EQ(A, a, "A afterwards"); EQ(B, b, "B afterwards");
}
template <class T> static void fixed() { for (int k = 0; k < H::N(30); k++) { fx<T, 1, 1>(); fx<T, 2, 3>(); fx<T, 3, 2>(); fx<T, 3, 3>(); fx<T, 1, 4>(); fx<T, 4, 1>(); fx<T, 4, 5>(); } }
TEST(fixed_double) { fixed<double>(); }
TEST(fixed_float) { fixed<float>(); }
TEST(fixed_complex) { fixed<std::complex<double> >(); }
HARNESS_MAIN
