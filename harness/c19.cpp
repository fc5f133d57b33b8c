#include "common.h"
#include "Types.h"
#include "Utils.h"
using namespace NS;
typedef __int128 W;
static W fact_(int n) { W f = 1; for (int i = 2; i <= n; i++) f *= i; return f; }
static std::vector<std::vector<W> > pascal(int n) { std::vector<std::vector<W> > p(n + 1, std::vector<W>(n + 1, 0)); for (int i = 0; i <= n; i++) { p[i][0] = 1; for (int k = 1; k <= i; k++) p[i][k] = p[i - 1][k - 1] + p[i - 1][k]; } return p; }
template <class T> static void integral() {
	W lim = (W)std::numeric_limits<T>::max();
	H::CASE("0! .. "); for (int n = 0; n <= 20 && fact_(n) <= lim; n++) { H::CASE("factorial(%d)", n); CHECK((W)Math::factorial<T>((T)n) == fact_(n), "factorial gives %lld", (long long)Math::factorial<T>((T)n)); }
	auto p = pascal(70);
	for (int n = 0; n <= 66; n++) for (int k = 0; k <= 70; k++) {
		W e = k > n ? 0 : p[n][k], worst = 1; for (int j = 0; j <= n && k <= n; j++) if (j <= (k < n - k ? k : n - k) && p[n][j] > worst) worst = p[n][j];
		if (worst * (n + 1) > lim) continue;
		H::CASE("binom(%d,%d)", n, k); T b = Math::binom<T>((T)n, (typename std::make_unsigned<T>::type)k); CHECK((W)b == e, "binom gives %lld expected %lld", (long long)b, (long long)e);
	}
	for (T n : {(T)10000, (T)20000, (T)30000}) for (int k = 0; k <= 2; k++) { W e = k == 0 ? (W)1 : k == 1 ? (W)n : (W)n * (n - 1) / 2; if ((W)n * n > lim) continue; H::CASE("binom(%lld,%d)", (long long)n, k); CHECK((W)Math::binom<T>(n, k) == e, "binom gives %lld", (long long)Math::binom<T>(n, k)); CHECK((W)Math::binom<T>(n, (typename std::make_unsigned<T>::type)(n - k)) == e, "binom(n,n-k) gives %lld", (long long)Math::binom<T>(n, (typename std::make_unsigned<T>::type)(n - k))); }
	for (int k = -130; k <= 130; k++) { if (k < 0 && !std::is_signed<T>::value) continue; H::CASE("sign_pow(%d)", k); CHECK((int)Math::sign_pow<T>((T)k) == (k % 2 == 0 ? 1 : -1), "sign_pow gives %d", (int)Math::sign_pow<T>((T)k)); }
	T mx = std::numeric_limits<T>::max(), mi = std::numeric_limits<T>::min();
	CHECK((int)Math::sign_pow<T>(mx) == -1 && (int)Math::sign_pow<T>(mi) == 1, "sign_pow at the ends of the type");
	std::vector<T> xs = {mi, (T)(mi + 1), (T)0, (T)1, (T)2, (T)7, (T)(mx / 2), (T)(mx - 1), mx}; if (std::is_signed<T>::value) { xs.push_back((T)-1); xs.push_back((T)-5); }
	for (T a : xs) for (T b : xs) { H::CASE("min/max(%lld,%lld)", (long long)a, (long long)b); CHECK(t_min<T>(a, b) == (a < b ? a : b), "t_min gives %lld", (long long)t_min<T>(a, b)); CHECK(t_max<T>(a, b) == (a < b ? b : a), "t_max gives %lld", (long long)t_max<T>(a, b)); }
}
TEST(int_) { integral<int>(); }
TEST(unsigned_) { integral<unsigned>(); }
TEST(long_) { integral<long>(); }
TEST(size_t_) { integral<size_t>(); }
TEST(longlong_) { integral<long long>(); }
template <class T> static void real_(double tol) {
	for (T n : {(T)0, (T)1, (T)2, (T)5, (T)12, (T)-1, (T)-3, (T)0.5, (T)-0.5, (T)2.25, (T)-7.75, (T)40, (T)13.5}) for (unsigned k = 0; k <= 25; k++) {
		H::CASE("binom(%g,%u)", (double)n, k); long double e = 1; for (unsigned i = 0; i < k; i++) e *= ((long double)n - i) / (i + 1);
		CHECK(H::close((double)Math::binom<T>(n, k), (double)e, tol), "binom gives %g expected %g", (double)Math::binom<T>(n, k), (double)e);
	}
	for (T a : {(T)-1e30, (T)-2, (T)-0.5, (T)0, (T)0.25, (T)3, (T)1e30}) for (T b : {(T)-1e30, (T)-2, (T)-0.5, (T)0, (T)0.25, (T)3, (T)1e30}) { H::CASE("min/max(%g,%g)", (double)a, (double)b); CHECK(t_min<T>(a, b) == (a < b ? a : b) && t_max<T>(a, b) == (a < b ? b : a), "minimum %g maximum %g", (double)t_min<T>(a, b), (double)t_max<T>(a, b)); }
}
TEST(double_) { real_<double>(1e-10); }
TEST(float_) { real_<float>(1e-4); }
HARNESS_MAIN
