#pragma once
#include "common.h"
#include "matrix/Matrix.h"
#include "matrix/MatrixOperations.h"
#include "LU.h"
#include "Vector.h"
using namespace NS;
template <class T> T cj(T x) { return x; }
template <class T> std::complex<T> cj(std::complex<T> x) { return std::conj(x); }
template <class T> NM<T> nt(const NM<T>& a) { NM<T> r(a.c, a.r); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) r(j, i) = a(i, j); return r; }
template <class T> NM<T> nc(NM<T> a) { for (auto& x : a.d) x = cj(x); return a; }
template <class T> NM<T> nmul(const NM<T>& a, const NM<T>& b) { NM<T> r(a.r, b.c); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < b.c; j++) for (size_t k = 0; k < a.c; k++) r(i, j) += a(i, k) * b(k, j); return r; }
template <class T> NM<T> neye(size_t n) { NM<T> r(n, n); for (size_t i = 0; i < n; i++) r(i, i) = T(1); return r; }
template <class M, class T> M fill(M m, const NM<T>& r) { for (size_t i = 0; i < r.r; i++) for (size_t j = 0; j < r.c; j++) if (r(i, j) != T(0)) m.set(i, j, r(i, j)); return m; }
template <class T, class M> NM<T> get(const M& a) { NM<T> m(a.rows(), a.columns()); for (size_t i = 0; i < m.r; i++) for (size_t j = 0; j < m.c; j++) m(i, j) = a.at(i, j); return m; }
template <class T> double nmax(const NM<T>& a) { double v = 0; for (auto& x : a.d) { double b = std::abs(x); if (!(b <= v)) v = b; } return v; }
template <class T> NM<T> nsub(NM<T> a, const NM<T>& b) { for (size_t i = 0; i < a.d.size(); i++) a.d[i] -= b.d[i]; return a; }
template <class T> double tol() { return sizeof(decltype(std::abs(T()))) == 4 ? 2e-4 : 1e-10; }
// entries of both sides agree up to tolerance relative to sc
template <class T> bool nclose(const NM<T>& a, const NM<T>& b, double sc = 1) { if (a.r != b.r || a.c != b.c) return false; double d = nmax(nsub(a, b)); return d <= tol<T>() * (1 + nmax(b)) * sc; }
template <class E, class F> static bool throws(F f) { try { f(); } catch (E&) { return true; } return false; }
template <class F> static bool quiet(F f) { try { f(); } catch (H::Stop&) { throw; } catch (...) { return false; } return true; }
// determinant by cofactors/elimination in extended precision with full pivoting
template <class T> struct wide { typedef long double t; };
template <class T> struct wide<std::complex<T> > { typedef std::complex<long double> t; };
template <class T> typename wide<T>::t ndet(const NM<T>& a) {
	typedef typename wide<T>::t W; size_t n = a.r; std::vector<std::vector<W> > m(n, std::vector<W>(n)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) m[i][j] = W(a(i, j));
	W det = 1; for (size_t k = 0; k < n; k++) { size_t p = k, q = k; for (size_t i = k; i < n; i++) for (size_t j = k; j < n; j++) if (std::abs(m[i][j]) > std::abs(m[p][q])) { p = i; q = j; } if (std::abs(m[p][q]) == 0) return W(0); if (p != k) { std::swap(m[p], m[k]); det = -det; } if (q != k) { for (auto& r : m) std::swap(r[q], r[k]); det = -det; } det *= m[k][k]; for (size_t i = k + 1; i < n; i++) { W f = m[i][k] / m[k][k]; for (size_t j = k; j < n; j++) m[i][j] -= f * m[k][j]; } }
	return det;
}
template <class T> T rv(double s = 1) { return H::Val<T>::r(-1000, 1000) * T(s / 1000); }
// well conditioned: dominant entry per row, rows then shuffled
template <class T> NM<T> rgood(size_t n, bool shuffle, int fillpct = 100) { NM<T> a(n, n); for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < n; j++) if (i != j && H::ri(0, 99) < fillpct) a(i, j) = rv<T>(); a(i, i) = T(H::ri(0, 1) ? 1 : -1) * T(1.5 * n) + rv<T>(); } if (shuffle) for (size_t i = n; i-- > 1;) { size_t k = H::ri(0, (int)i); for (size_t j = 0; j < n; j++) std::swap(a(i, j), a(k, j)); } return a; }
template <class T> NM<T> rlower(size_t n, bool unit, int fillpct = 100) { NM<T> a(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j <= i; j++) if (i == j) a(i, i) = unit ? T(1) : T(H::ri(0, 1) ? 1 : -1) * T(1 + H::ri(0, 100) / 50.); else if (H::ri(0, 99) < fillpct) a(i, j) = rv<T>(2. / n + 0.2); return a; }
template <class M> struct Mk { static M z(size_t r, size_t c) { return M(r, c); } };
template <class T, size_t R, size_t C> struct Mk<FixedMatrix<T, R, C> > { static FixedMatrix<T, R, C> z(size_t, size_t) { return FixedMatrix<T, R, C>(); } };
template <class M> struct Sz { static size_t n(int m) { return H::ri(0, 14) ? H::ri(1, m) : (H::thorough && H::ri(0, 3) == 0 ? H::ri(15, 40) : H::ri(8, 14)); } };
template <class T, size_t R, size_t C> struct Sz<FixedMatrix<T, R, C> > { static size_t n(int) { return R; } };
template <class M> struct IsFixed { static const bool v = false; };
template <class T, size_t R, size_t C> struct IsFixed<FixedMatrix<T, R, C> > { static const bool v = true; };
