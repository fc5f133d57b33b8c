#include "common.h"
#include "Vector.h"
using namespace NS;
template <class E, class F> static bool throws(F f) { try { f(); } catch (E&) { return true; } return false; }
template <class T> static std::string sv(const std::vector<T>& a) { std::string o = "["; for (auto& x : a) o += H::str(x) + " "; return o + "]"; }
template <class T> static T ap(char o, T a, T b) { return o == '+' ? a + b : o == '-' ? a - b : o == '*' ? a * b : a / b; }
template <class T, class V> static V mk(V v, const std::vector<T>& a) { for (size_t i = 0; i < a.size(); i++) v.linear_set(i, a[i]); return v; }
template <class T, class V> static void eq(const V& v, const std::vector<T>& e, const char* nm, bool exact = true) {
	CHECK(v.size() == e.size(), "%s: length", nm);
	for (size_t i = 0; i < e.size(); i++) CHECK(exact ? v.linear_at(i) == e[i] : H::close(v.linear_at(i), e[i]), "%s[%zu]=%s expected %s", nm, i, H::str(v.linear_at(i)).c_str(), H::str(e[i]).c_str());
}
template <class T> static std::vector<T> ew(std::vector<T> a, const std::vector<T>& b, char o) { for (size_t i = 0; i < a.size(); i++) a[i] = ap(o, a[i], b[i]); return a; }
template <class T> static std::vector<T> es(std::vector<T> a, T s, char o) { for (auto& x : a) x = ap(o, x, s); return a; }
template <class T> static std::vector<T> se(T s, std::vector<T> a, char o) { for (auto& x : a) x = ap(o, s, x); return a; }
template <class T> static double nrm(T x) { return x * x; }
template <class T> static double nrm(std::complex<T> x) { return std::norm(x); }
template <class T, class V> static void ops(V z) {
	size_t n = z.size(); std::vector<T> a(n), b(n), nz(n);
	for (size_t i = 0; i < n; i++) { a[i] = H::ri(0, 4) ? H::Val<T>::r(-4, 4) : T(0); b[i] = H::Val<T>::r(-4, 4); do nz[i] = H::Val<T>::r(-4, 4); while (nz[i] == T(0)); }
	T s = H::Val<T>::r(-4, 4), snz = n ? nz[n - 1] : T(2);
	const V A = mk(z, a), B = mk(z, b), Z = mk(z, nz);
	H::CASE("a=%s b=%s nz=%s s=%s", sv(a).c_str(), sv(b).c_str(), sv(nz).c_str(), H::str(s).c_str());
	eq(A + B, ew(a, b, '+'), "a+b"); eq(A - B, ew(a, b, '-'), "a-b"); eq(A * B, ew(a, b, '*'), "a*b"); eq(A / Z, ew(a, nz, '/'), "a/nz", false);
	eq(A + s, es(a, s, '+'), "a+s"); eq(A - s, es(a, s, '-'), "a-s"); eq(A * s, es(a, s, '*'), "a*s"); eq(A / snz, es(a, snz, '/'), "a/s", false);
	eq(s + A, se(s, a, '+'), "s+a"); eq(s - A, se(s, a, '-'), "s-a"); eq(s * A, se(s, a, '*'), "s*a"); eq(s / Z, se(s, nz, '/'), "s/nz", false); eq(-A, es(a, T(-1), '*'), "-a");
	eq(A + A, ew(a, a, '+'), "a+a"); eq(A - A, ew(a, a, '-'), "a-a"); eq(A * A, ew(a, a, '*'), "a*a"); eq(Z / Z, ew(nz, nz, '/'), "nz/nz", false);
	for (char o : {'+', '-', '*', '/'}) {
		const std::vector<T>& c = o == '/' ? nz : b; const V& C = o == '/' ? Z : B; T t = o == '/' ? snz : s; char nm[20];
		V v = A; snprintf(nm, 20, "a%c=b", o); if (o == '+') v += C; else if (o == '-') v -= C; else if (o == '*') v *= C; else v /= C; eq(v, ew(a, c, o), nm, o != '/');
		v = A; snprintf(nm, 20, "a%c=s", o); if (o == '+') v += t; else if (o == '-') v -= t; else if (o == '*') v *= t; else v /= t; eq(v, es(a, t, o), nm, o != '/');
		v = Z; snprintf(nm, 20, "v%c=v", o); if (o == '+') v += v; else if (o == '-') v -= v; else if (o == '*') v *= v; else v /= v; eq(v, ew(nz, nz, o), nm, o != '/');
		if (n) { size_t e = H::ri(0, n - 1); v = Z; snprintf(nm, 20, "v%c=v[%zu]", o, e); const V& cv = v; if (o == '+') v += cv.linear_at(e); else if (o == '-') v -= cv.linear_at(e); else if (o == '*') v *= cv.linear_at(e); else v /= cv.linear_at(e); eq(v, es(nz, nz[e], o), nm, o != '/'); }
	}
	eq(A, a, "a afterwards"); eq(B, b, "b afterwards"); eq(Z, nz, "nz afterwards");
	{ V v = Z; v.do_reciprocal(); eq(v, se(T(1), nz, '/'), "reciprocal", false); v.fill(s); eq(v, std::vector<T>(n, s), "fill"); }
	{ V v = A, w = B; v.swap(w); eq(v, b, "swap"); eq(w, a, "swap other"); v.swap(v); eq(v, b, "swap self"); }
	T d = 0, dd = 0; double m2 = 0; for (size_t i = 0; i < n; i++) { d += a[i] * b[i]; dd += a[i] * a[i]; m2 += nrm(a[i]); }
	CHECK(A.dot(B) == d, "dot=%s expected %s", H::str(A.dot(B)).c_str(), H::str(d).c_str()); CHECK(A.dot(A) == dd, "dot with itself");
	CHECK(A.magSqr() == dd, "magSqr=%s expected %s", H::str(A.magSqr()).c_str(), H::str(dd).c_str());
	CHECK(H::close(A.mag() * A.mag(), dd, 1e-5), "mag=%s", H::str(A.mag()).c_str());
	bool same = a == b; CHECK((A == B) == same && (A != B) == !same && A == A && !(A != A), "equality");
	for (size_t i = 0; i < n; i++) { std::vector<T> c = a; c[i] += T(1); V D = mk(z, c); CHECK(!(A == D) && A != D && D != A, "equality misses entry %zu", i);
		CHECK(A.at(i) == a[i] && A[i] == a[i] && A.linear_at(i) == a[i], "at(%zu)", i); V v = A; v.set(i, s); c = a; c[i] = s; eq(v, c, "set"); v = A; v[i] = s; eq(v, c, "operator[]"); v = A; v.linear_set(i, s); eq(v, c, "linear_set"); }
	for (size_t x = 0; x <= n; x++) for (size_t y = 0; y <= n + 1; y++) { bool e = false; for (size_t i = x; i < y && i < n; i++) e |= a[i] == s; CHECK(A.has(x, y, s) == e, "has(%zu,%zu,s)", x, y); }
	size_t k = 0; for (auto it = A.begin(); it != A.end() && k <= n; ++it, ++k) CHECK(k < n && *it == a[k], "iteration step %zu", k); CHECK(k == n, "iteration visits %zu of %zu", k, n);
	k = 0; for (auto it = A.begin(); it != A.end() && k <= n; k++) { CHECK(it.isValid(), "valid"); auto o = it++; CHECK(*o == a[k], "post-increment"); }
}
template <class T> static void norm(bool fx) {
	for (int k = 0; k < H::N(60); k++) { size_t n = H::dim(6); DynamicVector<T> v(n); std::vector<T> a(n); double m = 0; for (size_t i = 0; i < n; i++) { a[i] = T(H::ri(-50, 50)) / T(7); v.linear_set(i, a[i]); m += (double)a[i] * a[i]; } if (m == 0) continue;
		H::CASE("normalized %s", sv(a).c_str()); auto w = v.normalized(); CHECK(w.size() == n, "length"); for (size_t i = 0; i < n; i++) CHECK(H::close((double)w.linear_at(i), (double)a[i] / std::sqrt(m), 1e-5), "normalized[%zu]=%g", i, (double)w.linear_at(i)); CHECK(H::close((double)v.mag(), std::sqrt(m), 1e-5), "mag"); eq(v, a, "operand of normalized"); }
}
template <class T> static void dyn() { for (int k = 0; k < H::N(120); k++) ops<T>(DynamicVector<T>((size_t)H::dim(7))); ops<T>(DynamicVector<T>((size_t)33)); }
template <class T> static void fix() { for (int k = 0; k < H::N(40); k++) { ops<T>(FixedVector<T, 1>()); ops<T>(FixedVector<T, 2>()); ops<T>(FixedVector<T, 3>()); ops<T>(FixedVector<T, 5>()); } }
TEST(dynamic_double) { dyn<double>(); }
TEST(dynamic_float) { dyn<float>(); }
TEST(dynamic_complex) { dyn<std::complex<double> >(); }
TEST(fixed_double) { fix<double>(); }
TEST(fixed_float) { fix<float>(); }
TEST(fixed_complex) { fix<std::complex<double> >(); }
TEST(normalized_double) { norm<double>(false); }
TEST(normalized_float) { norm<float>(false); }
TEST(length_mismatch) {
	for (size_t n = 1; n < 5; n++) for (size_t m = 1; m < 5; m++) if (n != m) {
		H::CASE("lengths %zu and %zu", n, m); std::vector<double> a(n), b(m); for (auto& x : a) x = H::ri(1, 5); for (auto& x : b) x = H::ri(1, 5);
		const DynamicVector<double> A = mk(DynamicVector<double>(n), a), B = mk(DynamicVector<double>(m), b); DynamicVector<double> v = A;
		typedef VectorSizeMismatchException E;
		CHECK(throws<E>([&] { v += B; }), "+="); eq(v, a, "target of +="); CHECK(throws<E>([&] { v -= B; }), "-="); eq(v, a, "target of -="); CHECK(throws<E>([&] { v *= B; }), "*="); eq(v, a, "target of *="); CHECK(throws<E>([&] { v /= B; }), "/="); eq(v, a, "target of /=");
		CHECK(throws<E>([&] { (void)(A + B); }), "+"); CHECK(throws<E>([&] { (void)(A - B); }), "-"); CHECK(throws<E>([&] { (void)(A * B); }), "*"); CHECK(throws<E>([&] { (void)(A / B); }), "/");
		CHECK(throws<E>([&] { (void)(A == B); }), "=="); CHECK(throws<E>([&] { (void)(A != B); }), "!="); CHECK(throws<E>([&] { (void)A.dot(B); }), "dot"); eq(A, a, "left"); eq(B, b, "right");
	}
}
TEST(special_values) {
	double sp[6] = {0, 1, -2, INFINITY, -INFINITY, NAN}; auto same = [](double x, double y) { return std::isnan(x) ? std::isnan(y) : x == y; };
	for (double x : sp) for (double y : sp) for (size_t n = 1; n < 4; n++) for (size_t k = 0; k < n; k++) {
		H::CASE("component %zu of %zu: %g and %g", k, n, x, y); DynamicVector<double> a(n), b(n); for (size_t i = 0; i < n; i++) { a.linear_set(i, 6 + i); b.linear_set(i, 2); } a.linear_set(k, x); b.linear_set(k, y);
		auto s = a + b, d = a - b, m = a * b, q = a / b, qs = a / y, sq = x / b; DynamicVector<double> e = a; e /= b; DynamicVector<double> ms = a * y;
		for (size_t i = 0; i < n; i++) { double u = a.linear_at(i), v = b.linear_at(i); CHECK(same(s.linear_at(i), u + v) && same(d.linear_at(i), u - v) && same(m.linear_at(i), u * v) && same(q.linear_at(i), u / v) && same(e.linear_at(i), u / v) && same(qs.linear_at(i), u / y) && same(sq.linear_at(i), x / v) && same(ms.linear_at(i), u * y), "entry %zu: sum %g difference %g product %g quotients %g %g %g %g, scaled %g", i, s.linear_at(i), d.linear_at(i), m.linear_at(i), q.linear_at(i), e.linear_at(i), qs.linear_at(i), sq.linear_at(i), ms.linear_at(i)); }
	}
}
HARNESS_MAIN
