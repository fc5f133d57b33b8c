#include "lin.h"
static int parity(std::vector<size_t> p) { int s = 0; for (size_t i = 0; i < p.size(); i++) while (p[i] != i) { std::swap(p[i], p[p[i]]); s ^= 1; } return s; }
template <class T, class M> static void ok(const NM<T>& a, const char* what, bool must) {
	size_t n = a.r; const M A = fill(Mk<M>::z(n, n), a); M L = fill(Mk<M>::z(n, n), randm<T>(n, n, 60)), U = fill(Mk<M>::z(n, n), randm<T>(n, n, 60)), P = fill(Mk<M>::z(n, n), randm<T>(n, n, 60)); size_t pc = H::ri(0, 50); bool np = H::ri(0, 4) == 0;
	H::CASE("%s A=%s%s", what, a.s().c_str(), np ? " no pivot counter" : ""); 
	bool q = quiet([&] { LU::serial::doolittle(A, L, U, P, np ? nullptr : &pc); }); CHECK(eqm<T>(A, a), "the input changed to %s", strm<T>(A).c_str()); if (!q) { CHECK(!must, "rejected"); return; }
	NM<T> l = get<T>(L), u = get<T>(U), p = get<T>(P); CHECK(l.r == n && l.c == n && u.r == n && u.c == n && p.r == n && p.c == n, "shape of the factors");
	std::vector<size_t> perm(n, n), used(n, 0);
	for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
		if (p(i, j) == T(1)) { CHECK(perm[i] == n && !used[j], "P=%s is not a permutation", p.s().c_str()); perm[i] = j; used[j] = 1; } else CHECK(p(i, j) == T(0), "P=%s is not a permutation", p.s().c_str());
		if (i == j) CHECK(l(i, j) == T(1), "L=%s has no unit diagonal", l.s().c_str()); else if (i < j) CHECK(l(i, j) == T(0), "L=%s is not lower triangular", l.s().c_str()); else CHECK(std::abs(u(i, j)) <= tol<T>() * (1 + nmax(a)), "U=%s is not upper triangular", u.s().c_str());
	}
	for (size_t i = 0; i < n; i++) CHECK(perm[i] < n, "P=%s is not a permutation", p.s().c_str());
	CHECK(nclose(nmul(l, u), nmul(p, a), n * (1 + nmax(u))), "LU=%s but PA=%s", nmul(l, u).s().c_str(), nmul(p, a).s().c_str());
	CHECK(nmax(l) <= 1 + tol<T>(), "a multiplier above 1: L=%s", l.s().c_str());
	if (!np) CHECK((int)(pc % 2) == parity(perm), "%zu row exchanges but P=%s", pc, p.s().c_str());
	size_t pc2 = 7; M L2 = Mk<M>::z(n, n), U2 = Mk<M>::z(n, n), P2 = Mk<M>::z(n, n); LU::serial::doolittle(A, L2, U2, P2, &pc2); CHECK(get<T>(L2).d == l.d && get<T>(U2).d == u.d && get<T>(P2).d == p.d && (np || pc2 == pc), "second run with fresh outputs differs");
}
template <class T, class M> static void all() {
	for (int k = 0; k < H::N(120); k++) {
		size_t n = Sz<M>::n(6);
		ok<T, M>(rgood<T>(n, k % 2, k % 3 ? 100 : 40), "well conditioned", true);
		NM<T> a = randm<T>(n, n, k % 2 ? 50 : 90, -3, 3); ok<T, M>(a, "small integers", false);
		{ NM<T> b = rgood<T>(n, true); for (size_t i = 0; i < n; i++) b(i, i) = T(0); ok<T, M>(b, "zero diagonal", false); }
		{ NM<T> b(n, n); for (size_t i = 0; i < n; i++) b(i, i) = T(1); for (size_t i = n; i-- > 1;) { size_t j = H::ri(0, (int)i); for (size_t c = 0; c < n; c++) std::swap(b(i, c), b(j, c)); } for (auto& x : b.d) x *= T(H::ri(1, 9)); ok<T, M>(b, "scaled permutation", true); }
		{ NM<T> b = nt(rlower<T>(n, false)); ok<T, M>(b, "upper triangular", true); ok<T, M>(nt(b), "lower triangular", true); }
		if (n > 1) {	// the first k columns are fine, then a column of zeros at and below the pivot
			size_t z = H::ri(0, (int)n - 2); NM<T> b = rgood<T>(n, false); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if ((i >= z && j < z) || (i >= z && j == z)) b(i, j) = T(0);
			if (z) { size_t i = H::ri(0, (int)z - 1); for (size_t j = 0; j < n; j++) std::swap(b(0, j), b(i, j)); }
			const M B = fill(Mk<M>::z(n, n), b); M L = Mk<M>::z(n, n), U = L, P = L; size_t pc; H::CASE("vanishing pivot in column %zu: A=%s", z, b.s().c_str()); CHECK(throws<SingularException>([&] { LU::serial::doolittle(B, L, U, P, &pc); }), "not rejected"); CHECK(eqm<T>(B, b), "the input changed"); CHECK(throws<SingularException>([&] { LU::serial::doolittle(B, L, U, P); }), "not rejected without counter");
		}
	}
}
template <class T> static void shapes() {
	typedef DenseMatrix<T> D; typedef SparseMatrix<T> S; typedef FixedMatrix<T, 2, 3> F; size_t pc;
	for (int k = 0; k < 40; k++) {
		size_t r = H::ri(1, 5), c = H::ri(1, 5), n = H::ri(1, 5); if (r == c) c++; NM<T> a = randm<T>(r, c, 80);
		D A = fill(D(r, c), a), L(r, c), U(r, c), P(r, c); S sA = fill(S(r, c), a), sL(r, c), sU(r, c), sP(r, c); H::CASE("%zu x %zu", r, c); CHECK(throws<NotSquareException>([&] { LU::serial::doolittle(A, L, U, P, &pc); }), "dense not rejected"); CHECK(throws<NotSquareException>([&] { LU::serial::doolittle(sA, sL, sU, sP, &pc); }), "sparse not rejected"); CHECK(eqm<T>(A, a) && eqm<T>(sA, a), "the input changed");
		NM<T> g = rgood<T>(n, true); for (int w = 0; w < 4; w++) { D B = fill(D(n, n), g), x(n + (w == 0), n + (w == 1)), y(n + (w == 2), n + (w == 3)), u(n, n); H::CASE("order %zu, L %zux%zu, P %zux%zu", n, x.rows(), x.columns(), y.rows(), y.columns()); CHECK(throws<InvalidOutputMatrixException>([&] { LU::serial::doolittle(B, x, u, y, &pc); }), "not rejected"); CHECK(eqm<T>(B, g), "the input changed"); }
		D B = fill(D(n, n), g), x(n, n), y(n, n), u(n + 1, n + 2); H::CASE("U of another shape"); LU::serial::doolittle(B, x, u, y); CHECK(u.rows() == n && u.columns() == n && nclose(nmul(get<T>(x), get<T>(u)), nmul(get<T>(y), g), 100), "LU != PA");
		S sB = fill(S(n, n), g), sx(H::ri(1, 7), H::ri(1, 7)), su(H::ri(1, 7), H::ri(1, 7)), sp(H::ri(1, 7), H::ri(1, 7)); LU::serial::doolittle(sB, sx, su, sp); CHECK(sp.rows() == n && sx.columns() == n && su.rows() == n && nclose(nmul(get<T>(sx), get<T>(su)), nmul(get<T>(sp), g), 100), "sparse outputs of another shape");
	}
	F f, l, u, p; H::CASE("fixed 2x3"); CHECK(throws<NotSquareException>([&] { LU::serial::doolittle(f, l, u, p, &pc); }), "not rejected");
}
TEST(dense) { all<double, DenseMatrix<double> >(); }
TEST(dense_float) { all<float, DenseMatrix<float> >(); }
TEST(dense_complex) { all<std::complex<double>, DenseMatrix<std::complex<double> > >(); }
TEST(sparse) { all<double, SparseMatrix<double> >(); }
TEST(sparse_complex) { all<std::complex<double>, SparseMatrix<std::complex<double> > >(); }
TEST(fixed) { all<double, FixedMatrix<double, 1, 1> >(); all<double, FixedMatrix<double, 2, 2> >(); all<double, FixedMatrix<double, 3, 3> >(); all<double, FixedMatrix<double, 5, 5> >(); all<std::complex<double>, FixedMatrix<std::complex<double>, 3, 3> >(); }
TEST(shape) { shapes<double>(); shapes<std::complex<double> >(); }
HARNESS_MAIN
