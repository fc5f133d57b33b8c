// Replay-harness support: every test runs in a forked child with a time limit, reports OK/FAIL lines.
#pragma once
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <complex>
#include <limits>
#include <functional>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <signal.h>

namespace H {
struct Shared { unsigned long cases; char desc[4000]; int fails; };
static Shared* sh = nullptr;
static const char* cur = "";
static bool thorough = false;
static unsigned long long seed0 = 1, st = 88172645463325252ULL;
inline unsigned long long rnd() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st; }
inline int ri(int a, int b) { return a + (int)(rnd() % (unsigned long long)(b - a + 1)); }
// mostly small, sometimes long and thin, rarely large in both directions
inline int big() { static const int b[] = {7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 70, 100, 129}; return b[ri(0, thorough ? 17 : 11)]; }
inline int dim(int m) { return ri(0, 11) ? ri(1, m) : big(); }
inline void shape(int m, size_t& r, size_t& c) { int k = ri(0, 39); r = ri(1, m); c = ri(1, m); if (k < 3) { r = big(); c = ri(1, 3); } else if (k < 6) { c = big(); r = ri(1, 3); } else if (k == 6) { r = ri(1, 14); c = ri(1, 14); } }
inline int N(int q) { return thorough ? q * 20 : q * 3; }
inline void CASE(const char* f, ...) { va_list a; va_start(a, f); vsnprintf(sh->desc, sizeof(sh->desc), f, a); va_end(a); sh->cases++; }
struct Stop {};
inline std::string oneline(std::string s) { for (auto& c : s) if (c == '\n' || c == '\r') c = ' '; return s; }
inline void fail(const char* f, ...) {
	char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof(b), f, a); va_end(a);
	printf("FAIL [%s] %s | case: %s\n", cur, oneline(b).c_str(), oneline(sh->desc).c_str()); fflush(stdout);
	if (++sh->fails >= 3) throw Stop();
}
#define CHECK(c, ...) do { if (!(c)) H::fail(__VA_ARGS__); } while (0)
typedef void (*Fn)();
struct Reg { const char* n; Fn f; };
inline std::vector<Reg>& regs() { static std::vector<Reg> r; return r; }
struct Add { Add(const char* n, Fn f) { regs().push_back({n, f}); } };
#define TEST(name) static void name(); static H::Add add_##name(#name, name); static void name()
inline int run(int argc, char** argv) {
	if (argc > 1) thorough = std::string(argv[1]) == "thorough";
	if (argc > 2) seed0 = strtoull(argv[2], 0, 10);
	sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int bad = 0;
	for (auto& r : regs()) {
		if (argc > 3 && std::string(argv[3]) != r.n) continue;
		memset(sh, 0, sizeof(*sh)); cur = r.n; fflush(stdout);
		pid_t p = fork();
		if (p == 0) {
			alarm(thorough ? 300 : 60);
			st = 88172645463325252ULL ^ (seed0 * 0x9E3779B97F4A7C15ULL); for (int i = 0; i < 8; i++) rnd();
			int rc = 0;
			try { r.f(); } catch (Stop&) {} catch (std::exception& e) { printf("FAIL [%s] unexpected exception %s | case: %s\n", cur, oneline(e.what()).c_str(), oneline(sh->desc).c_str()); sh->fails++; }
			catch (...) { printf("FAIL [%s] unexpected exception | case: %s\n", cur, oneline(sh->desc).c_str()); sh->fails++; }
			fflush(stdout); _exit(sh->fails ? 1 : 0);
		}
		int s = 0; waitpid(p, &s, 0);
		if (WIFSIGNALED(s)) { printf("FAIL [%s] crashed with signal %d | case: %s\n", r.n, WTERMSIG(s), oneline(sh->desc).c_str()); bad = 1; }
		else if (WEXITSTATUS(s) != 0) {
			if (!sh->fails) printf("FAIL [%s] memory or undefined-behaviour error reported by the sanitizer | case: %s\n", r.n, oneline(sh->desc).c_str());
			bad = 1;
		} else printf("OK [%s] %lu\n", r.n, sh->cases);
		fflush(stdout);
	}
	return bad;
}
inline bool close(double a, double b, double tol = 1e-9) { if (std::isnan(a) || std::isnan(b)) return false; return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
inline bool close(float a, float b, double tol = 1e-4) { return close((double)a, (double)b, tol); }
template <class T> bool close(std::complex<T> a, std::complex<T> b, double tol = 1e-9) { return close((double)a.real(), (double)b.real(), tol) && close((double)a.imag(), (double)b.imag(), tol); }
inline std::string str(double a) { char b[40]; snprintf(b, 40, "%g", a); return b; }
inline std::string str(float a) { return str((double)a); }
template <class T> std::string str(std::complex<T> a) { return "(" + str(a.real()) + "," + str(a.imag()) + ")"; }
template <class T> struct Val { static T r(int lo, int hi) { return (T)ri(lo, hi); } };
template <class T> struct Val<std::complex<T> > { static std::complex<T> r(int lo, int hi) { return std::complex<T>((T)ri(lo, hi), (T)ri(lo, hi)); } };
}
#define HARNESS_MAIN int main(int c, char** v) { return H::run(c, v); }

// naive matrices
template <class T> struct NM {
	size_t r, c; std::vector<T> d;
	NM(size_t r_ = 0, size_t c_ = 0) : r(r_), c(c_), d(r_ * c_, T(0)) {}
	T& operator()(size_t i, size_t j) { return d[i * c + j]; }
	const T& operator()(size_t i, size_t j) const { return d[i * c + j]; }
	std::string s() const { std::string o = std::to_string(r) + "x" + std::to_string(c) + "{"; for (size_t i = 0; i < r; i++) { o += "["; for (size_t j = 0; j < c; j++) o += (j ? " " : "") + H::str((*this)(i, j)); o += "]"; } return o + "}"; }
};
template <class T> NM<T> randm(size_t r, size_t c, int fillpct, int lo = -4, int hi = 4) {
	NM<T> m(r, c); for (auto& x : m.d) if (H::ri(0, 99) < fillpct) x = H::Val<T>::r(lo, hi); return m;
}
template <class T, class M> bool eqm(const M& a, const NM<T>& b, double tol = 0) {
	if (a.rows() != b.r || a.columns() != b.c) return false;
	for (size_t i = 0; i < b.r; i++) for (size_t j = 0; j < b.c; j++) if (tol == 0 ? !(a.at(i, j) == b(i, j)) : !H::close(a.at(i, j), b(i, j), tol)) return false;
	return true;
}
template <class T, class M> std::string strm(const M& a) {
	NM<T> m(a.rows(), a.columns()); for (size_t i = 0; i < m.r; i++) for (size_t j = 0; j < m.c; j++) m(i, j) = a.at(i, j); return m.s();
}
