// C37: elementary and special functions, against fixed-point arithmetic.
#include "vf.hpp"
#include <sprout/math/functions.hpp>
#include <sprout/math/sigmoid.hpp>
#include <sprout/math/log_a.hpp>
#include <sprout/math/constants.hpp>
#include <sprout/math/factorial.hpp>
#include <cmath>
#include <limits>
#ifndef PART
#define PART 1
#endif
using vf::Ev; namespace m = sprout::math;
#if SPROUT_USE_BUILTIN_CMATH_FUNCTION
static const bool BI = true;
#else
static const bool BI = false;
#endif
#if PART % 3 == 1
typedef float T; static const char* TN = "f";
#elif PART % 3 == 2
typedef double T; static const char* TN = "d";
#else
typedef long double T; static const char* TN = "l";
#endif
typedef std::numeric_limits<T> L;
template<typename F> vf::raw fp(F x) {
	char b[400];
	int s = std::signbit(x) ? -1 : 1;
	if (x != x) { std::snprintf(b, sizeof b, "{\"k\":\"q\",\"s\":%d,\"m\":[],\"e\":0}", s); return vf::raw{b}; }
	if (std::isinf(x)) { std::snprintf(b, sizeof b, "{\"k\":\"i\",\"s\":%d,\"m\":[],\"e\":0}", s); return vf::raw{b}; }
	int e = 0; long double f = std::frexp((long double)(x < 0 ? -x : x), &e); unsigned long long m = (unsigned long long)std::ldexp(f, 64); e -= 64;
	if (!m) e = 0; while (m && !(m & 1)) { m >>= 1; ++e; }
	std::string r = vf::big(m).s; std::snprintf(b, sizeof b, "{\"k\":\"n\",\"s\":%d,\"m\":%s,\"e\":%d}", s, r.c_str(), e); return vf::raw{b};
}
static void m1(const char* fn, T x, T r) { Ev e("m1"); e("fn", fn)("t", TN)("bi", BI)("x", fp(x))("r", fp(r)); e.emit(); }
static void m2(const char* fn, T x, T y, T r) { Ev e("m2"); e("fn", fn)("t", TN)("bi", BI)("x", fp(x))("y", fp(y))("r", fp(r)); e.emit(); }
static void out(const char* fn, T x, T r, int top, int sg) { Ev e("out"); e("fn", fn)("t", TN)("x", fp(x))("top", top)("sg", sg)("r", fp(r)); e.emit(); }
#define M1(FN, X) { T a_ = X; m1(#FN, a_, m::FN(a_)); }
#define M2(FN, X, Y) m2(#FN, X, Y, m::FN(X, Y));
static T unit() { return std::ldexp(T(vf::rnd64() >> (64 - std::min(64, L::digits))), -L::digits); }
static T uni(T a, T b) { return a + (b - a) * unit(); }
static T sg() { return vf::rnd(0, 1) ? T(1) : T(-1); }
static T lu(int a, int b) { return std::ldexp(1 + unit(), vf::rnd(a, b)); }                  // magnitudes evenly over the powers of two
#define REP(n) for (int i_ = 0, n_ = (n) * (vf::thorough() ? 7 : 1); i_ < n_; ++i_)
static void specials() {
	T in = L::infinity(), na = L::quiet_NaN();
	std::vector<T> v{T(0), -T(0), in, -in, na, T(1), T(-1), T(2), T(-2), T(3), T(-3), T(0.5), T(-0.5), T(1) + L::epsilon(), -T(1) - L::epsilon(), T(1) - L::epsilon() / 2, L::epsilon() / 2 - T(1), T(-7), T(1.5), T(4)};
	for (T x : v) {
		if (!(x == x) || std::isinf(x) || (x != -T(0.5) && x != T(-7))) {
			M1(exp, x) M1(exp2, x) M1(exp10, x) M1(expm1, x) M1(sin, x) M1(cos, x) M1(tan, x) M1(sinh, x) M1(cosh, x) M1(tanh, x) M1(asinh, x) M1(atan, x) M1(erf, x) M1(erfc, x) M1(cbrt, x) M1(sigmoid, x)
		}
		M1(log, x) M1(log2, x) M1(log10, x) if (x != T(-1) + L::epsilon() / 2) { M1(log1p, x) } M1(sqrt, x) M1(asin, x) M1(acos, x) M1(acosh, x) M1(atanh, x) if (!(x < 0) || x == std::floor(x)) { M1(tgamma, x) M1(lgamma, x) }
	}
	std::vector<T> w{T(0), -T(0), in, -in, na, T(1), T(-1), T(2), T(-2), T(3), T(-3), T(0.5), T(-1.5), T(7)};
	for (T x : w) for (T y : w) { bool both = std::isfinite(x) && std::isfinite(y) && x != 0 && y != 0; if (both && vf::rnd(0, 1)) continue; M2(pow, x, y) M2(atan2, x, y) M2(hypot, x, y) }
	if (BI || !BI) {   // beyond the range
		T big = std::log(L::max()) * T(1.01); out("exp", big, m::exp(big), 1, 1); out("exp", -big * 2, m::exp(-big * 2), 0, 1); out("exp", L::max(), m::exp(L::max()), 1, 1); out("exp", -L::max(), m::exp(-L::max()), 0, 1);
		out("exp2", T(L::max_exponent + 1), m::exp2(T(L::max_exponent + 1)), 1, 1); out("exp10", T(L::max_exponent10 + 2), m::exp10(T(L::max_exponent10 + 2)), 1, 1); out("cosh", -big * 2, m::cosh(-big * 2), 1, 1); out("sinh", big * 2, m::sinh(big * 2), 1, 1);
		out("sinh", -big * 2, m::sinh(-big * 2), 1, -1); out("expm1", big, m::expm1(big), 1, 1); out("pow", T(10), m::pow(T(10), T(L::max_exponent10 + 2)), 1, 1); out("pow", T(-10), m::pow(T(-10), T((L::max_exponent10 + 2) | 1)), 1, -1); out("pow", T(10), m::pow(T(10), T(-L::max_exponent10 * 2)), 0, 1);
		out("tgamma", T(1900), m::tgamma(T(1900)), 1, 1); out("tgamma", L::max(), m::tgamma(L::max()), 1, 1); if (L::max_exponent <= 1024) { out("tgamma", T(180), m::tgamma(T(180)), 1, 1); out("tgamma", T(172.5), m::tgamma(T(172.5)), 1, 1); }
	}
}
static void elementary() {
	REP(5) { M1(exp, uni(-1, 1)) } REP(3) { M1(exp, uni(-20, 20)) } REP(3) { M1(exp, uni(-80, 80)) } M1(exp, T(16)) M1(exp, T(-16)) M1(exp, T(17.25)) M1(exp, T(-33)) M1(exp, T(64)) M1(exp, T(-1)) M1(exp, T(15.75)) if (L::max_exponent > 128) { REP(3) { M1(exp, uni(-700, 700)) } }
	REP(3) { M1(exp2, uni(-10, 10)) } REP(2) { M1(exp2, uni(-120, 120)) } REP(2) { M1(exp10, uni(-3, 3)) } REP(2) { M1(exp10, uni(-30, 30)) }
	REP(4) { M1(expm1, uni(-10, 10)) } REP(3) { M1(expm1, sg() * lu(-28, 1)) }
	REP(4) { M1(log, uni(T(0.5), 2)) } REP(6) { M1(log, lu(-100, 100)) } REP(2) { M1(log2, lu(-100, 100)) } REP(2) { M1(log2, uni(T(0.5), 2)) } REP(3) { M1(log10, lu(-100, 100)) } REP(3) { M1(log1p, uni(T(-0.97), 50)) } REP(3) { M1(log1p, sg() * lu(-28, -2)) }
	REP(8) { M1(sqrt, lu(-120, 120)) } REP(4) { T x = T(vf::rnd(2, 5000)); m1("sqrt", x * x, m::sqrt(x * x)); } REP(6) { M1(cbrt, sg() * lu(-100, 100)) }
	REP(8) { T x = sg() * lu(-30, 30), y = sg() * lu(-30, 30); M2(hypot, x, y) } REP(4) { T x = sg() * lu(0, 1), y = sg() * lu(0, 1); M2(hypot, x, y) }
	REP(4) { T x = lu(-20, 20), y = uni(-3, 3); M2(pow, x, y) } REP(4) { T x = uni(T(0.1), 10), y = uni(-20, 20); M2(pow, x, y) } REP(5) { T x = sg() * lu(-8, 8), y = T(vf::rnd(-9, 9)); M2(pow, x, y) }
	REP(3) { T x = lu(-10, 10), y = lu(-10, 10); if (std::fabs(std::log(x)) < T(0.2)) x = 3; M2(log_a, x, y) } { T y = uni(2, 100); M2(log_a, T(2), y) M2(log_a, T(10), y) }
	REP(4) { M1(sigmoid, uni(-10, 10)) } REP(3) { T x = uni(-3, 3), a = uni(T(0.2), 3); M2(sigmoid, x, a) m2("d_sigmoid", x, a, m::d_sigmoid(x, a)); }
}
static void trig() {
	REP(6) { M1(sin, uni(-4, 4)) } REP(4) { M1(sin, uni(-100, 100)) } REP(3) { M1(sin, sg() * lu(-20, -1)) } REP(6) { M1(cos, uni(-4, 4)) } REP(4) { M1(cos, uni(-100, 100)) } REP(5) { M1(tan, uni(T(-1.5), T(1.5))) } REP(4) { T x = uni(-50, 50); if (std::fabs(std::cos(x)) > T(0.02)) { M1(tan, x) } }
	REP(6) { M1(asin, uni(-1, 1)) } REP(3) { M1(asin, sg() * lu(-20, -1)) } REP(6) { M1(acos, uni(-1, 1)) } REP(5) { M1(atan, uni(-3, 3)) } REP(6) { M1(atan, sg() * lu(-20, 30)) }
	REP(12) { T x = sg() * lu(-10, 10), y = sg() * lu(-10, 10); M2(atan2, x, y) } REP(6) { T x = sg() * lu(0, 1), y = sg() * lu(0, 1); M2(atan2, x, y) }
	REP(5) { M1(sinh, uni(-10, 10)) } REP(3) { M1(sinh, uni(-80, 80)) } REP(3) { M1(sinh, sg() * lu(-20, 0)) } REP(5) { M1(cosh, uni(-10, 10)) } REP(3) { M1(cosh, uni(-80, 80)) } REP(5) { M1(tanh, uni(-10, 10)) } REP(3) { M1(tanh, sg() * lu(-20, 4)) }
	REP(5) { M1(asinh, uni(-10, 10)) } REP(5) { M1(asinh, sg() * lu(-20, 30)) } REP(5) { M1(acosh, uni(T(1.001), 10)) } REP(4) { M1(acosh, lu(1, 40)) } REP(5) { M1(atanh, uni(T(-0.99), T(0.99))) } REP(3) { M1(atanh, sg() * lu(-20, -2)) }
}
static T away(T x) { T f = x - std::floor(x); return f < T(0.05) ? x + T(0.07) : f > T(0.95) ? x - T(0.07) : x; }      // from the poles
static void special_functions() {
	REP(6) { M1(erf, uni(-1, 1)) } REP(6) { M1(erf, uni(-3, 3)) } REP(3) { M1(erf, uni(-5, 5)) } REP(3) { M1(erf, sg() * lu(-20, -1)) } REP(8) { M1(erfc, uni(-3, 3)) }
	REP(6) { M1(tgamma, uni(T(0.1), 10)) } REP(5) { M1(tgamma, uni(1, 30)) } REP(6) { M1(tgamma, away(uni(-10, 0))) } if (L::max_exponent > 128) { REP(4) { M1(tgamma, uni(30, 171)) } } if (L::max_exponent > 1024) { REP(3) { M1(tgamma, uni(171, 1750)) } } for (int n = 3; n < 12; n += 2) { M1(tgamma, T(n)) M1(lgamma, T(n)) M1(tgamma, T(n) / 2) }
	REP(10) { M1(lgamma, uni(T(0.1), T(3.5))) } REP(5) { M1(lgamma, uni(T(3.5), 9)) } REP(3) { M1(lgamma, uni(9, 60)) } REP(2) { M1(lgamma, uni(60, 1000)) } REP(8) { M1(lgamma, away(uni(-10, 0))) }
#define K(FN) { Ev e("kc"); e("fn", #FN)("t", TN)("r", fp(m::FN<T>())); e.emit(); }
	K(pi) K(half_pi) K(third_pi) K(two_thirds_pi) K(quarter_pi) K(three_quarters_pi) K(two_pi) K(four_pi) K(two_div_pi) K(root_two_div_pi) K(root_pi) K(one_div_root_pi) K(root_one_div_pi) K(two_div_root_pi) K(half) K(quarter) K(third) K(two_thirds) K(root_two) K(root_three) K(half_root_two) K(e) K(ln_ten) K(ln_two) K(phi)
	for (std::size_t n = 1; n <= m::factorial_limit<T>() && n < (vf::thorough() ? 4000 : 400); ++n) { Ev e("fact"); e("t", TN)("n", int(n))("a", fp(m::factorial<T>(n - 1)))("r", fp(m::factorial<T>(n))); e.emit(); }
}
// integers are taken as double
static void integers() {
#if PART % 3 == 2
#define I1(FN, X) m1(#FN, T(X), m::FN(X));
	I1(exp, 3) I1(exp, -2L) I1(exp2, 5) I1(exp10, 2) I1(expm1, 2u) I1(log, 7) I1(log2, 9) I1(log10, 11) I1(log1p, 4) I1(sqrt, 10) I1(cbrt, 20) I1(sin, 2) I1(cos, 3) I1(tan, 1) I1(asin, 1) I1(acos, 0) I1(atan, 5) I1(sinh, 2) I1(cosh, -2) I1(tanh, 1) I1(asinh, -3) I1(acosh, 4) I1(atanh, 0) I1(erf, 1) I1(erfc, 2) I1(tgamma, 6) I1(lgamma, 7) I1(sigmoid, 2)
	m2("pow", T(3), T(5), m::pow(3, 5)); m2("pow", T(2), T(0.5), m::pow(2, 0.5f)); m2("pow", T(-2), T(3), m::pow(-2.0f, 3)); m2("atan2", T(-1), T(-2), m::atan2(-1, -2)); m2("hypot", T(5), T(11), m::hypot(5, 11.0)); m2("log_a", T(3), T(20), m::log_a(3, 20));
#endif
}
int main(int ac, char** av) {
	vf::init(ac, av);
#if PART <= 3
	specials(); elementary(); integers();
#elif PART <= 6
	trig();
#else
	special_functions();
#endif
	return vf::done();
}
