// C24: rounding, remainders, classification and decomposition of floating point numbers.
#include "vf.hpp"
#include <sprout/cmath.hpp>
#include <sprout/math/floating_point.hpp>
#include <sprout/math/nearest.hpp>
#include <sprout/math/remainders.hpp>
#include <sprout/math/classifications.hpp>
#include <sprout/math/comparisons.hpp>
#include <sprout/math/minmax.hpp>
#include <sprout/math/manipulations.hpp>
#include <sprout/math/muladd.hpp>
#include <sprout/math/integer.hpp>
#include <sprout/math/abs.hpp>
#include <sprout/math/fabs.hpp>
#include <cmath>
#include <limits>
#ifndef PART
#define PART 1
#endif
using vf::Ev;
#if SPROUT_USE_BUILTIN_CMATH_FUNCTION
static const bool BI = true;
#else
static const bool BI = false;
#endif
typedef std::vector<int> V;
template<typename T> struct fmt; template<> struct fmt<float> { static const char* n() { return "f"; } }; template<> struct fmt<double> { static const char* n() { return "d"; } }; template<> struct fmt<long double> { static const char* n() { return "l"; } };
// the exact value of a floating point number, taken apart with the C library: s * m * 2^e, m odd or zero
template<typename T> vf::raw fp(T x) {
	char b[400];
	int s = std::signbit(x) ? -1 : 1;
	if (x != x) { std::snprintf(b, sizeof b, "{\"k\":\"q\",\"s\":%d,\"m\":[],\"e\":0}", s); return vf::raw{b}; }
	if (std::isinf(x)) { std::snprintf(b, sizeof b, "{\"k\":\"i\",\"s\":%d,\"m\":[],\"e\":0}", s); return vf::raw{b}; }
	int e = 0; long double f = std::frexp((long double)(x < 0 ? -x : x), &e); unsigned long long m = (unsigned long long)std::ldexp(f, 64); e -= 64;
	if (!m) e = 0; while (m && !(m & 1)) { m >>= 1; ++e; }
	std::string r = vf::big(m).s; std::snprintf(b, sizeof b, "{\"k\":\"n\",\"s\":%d,\"m\":%s,\"e\":%d}", s, r.c_str(), e); return vf::raw{b};
}
static int code(int v) { return v == std::numeric_limits<int>::max() ? 999999 : v == std::numeric_limits<int>::min() ? -999999 : v; }
#define F1(FN, ...) { Ev e("f1"); e("fn", FN)("t", fmt<T>::n())("bi", BI)("x", fp(x))("r", fp(__VA_ARGS__)); e.emit(); }
#define F2(FN, ...) { Ev e("f2"); e("fn", FN)("t", fmt<T>::n())("bi", BI)("x", fp(x))("y", fp(y))("r", fp(__VA_ARGS__)); e.emit(); }
#define E1(FN, ...) { Ev e("e1"); e("fn", FN)("x", fp(x))("r", code(__VA_ARGS__)); e.emit(); }
#define SC(FN, ...) { Ev e("sc"); e("fn", FN)("t", fmt<T>::n())("x", fp(x))("n", n)("r", fp(__VA_ARGS__)); e.emit(); }
namespace m = sprout::math;
template<typename To, typename T> void ints(T x, bool isint, const char* fn, To(*f)(T)) {
	(void)isint; Ev e("i1"); e("fn", fn)("b", int(sizeof(To) * 8))("x", fp(x))("r", vf::bigz(f(x))); e.emit();
}
template<typename To, typename T> void allints(T x) {
	ints<To, T>(x, true, "floor", [](T v) -> To { return m::ifloor<To>(v); }); ints<To, T>(x, true, "ceil", [](T v) -> To { return m::iceil<To>(v); });
	ints<To, T>(x, true, "round", [](T v) -> To { return m::iround<To>(v); }); ints<To, T>(x, true, "trunc", [](T v) -> To { return m::itrunc<To>(v); });
}
template<typename T> void one(T x) {
	F1("ceil", m::ceil(x)) F1("floor", m::floor(x)) F1("round", m::round(x)) F1("trunc", m::trunc(x)) F1("ipart", m::integer_part(x)) F1("fpart", m::fractional_part(x))
	F1("fpart", m::frac_int(x).first) F1("ipart", m::frac_int(x).second) F1("fabs", m::fabs(x)) F1("fabs", m::abs(x))
	F1("logb", m::logb(x)) F1("logb", m::logb2(x)) F1("sig", m::float_significand(x)) F1("sig", m::float2_significand(x)) F1("sig", m::float_sig_exp(x).first) F1("sig", m::float2_sig_exp(x).first)
	E1("ilogb", m::ilogb(x)) E1("ilogb", m::ilogb2(x)) E1("exp", m::float_exponent(x)) E1("exp", m::float2_exponent(x)) E1("exp", m::float_sig_exp(x).second) E1("exp", m::float2_sig_exp(x).second)
	allints<int>(x); allints<long>(x); if (vf::thorough() || std::fabs((long double)x) < 40000) allints<short>(x); if (vf::thorough()) allints<long long>(x);
	if (!(x == x) || std::isinf(x) || std::fabs((long double)x) < 9.2e18L) { ints<long, T>(x, true, "round", [](T v) -> long { return m::lround(v); }); ints<long long, T>(x, true, "round", [](T v) -> long long { return m::llround(v); }); }
	int c = m::fpclassify(x); bool in = m::is_integer(x), ev = m::is_even(x), od = m::is_odd(x);
	Ev e("cls"); e("t", fmt<T>::n())("bi", BI)("x", fp(x))("c", c == FP_NAN ? "q" : c == FP_INFINITE ? "i" : c == FP_ZERO ? "z" : c == FP_SUBNORMAL ? "s" : c == FP_NORMAL ? "n" : "?")
		("r", V{m::isnan(x), m::isinf(x), m::isfinite(x), m::isnormal(x), (m::issubnormal)(x), (m::iszero)(x)})("sg", m::signbit(x))("ieo", V{in, ev, od}); e.emit();
}
template<typename T> void scale(T x, int n) { SC("ldexp", m::ldexp(x, n)) SC("scalbn", m::scalbn(x, n)) SC("scalbln", m::scalbln(x, long(n))) }
template<typename T> void rem2(T x, T y) {
	F2("fmod", m::fmod(x, y)) F2("remainder", m::remainder(x, y)) F2("remainder", m::rem_quo(x, y).first)
	Ev e("quo"); e("x", fp(x))("y", fp(y))("r", V{m::rem_quo(x, y).second, m::quotient(x, y)}); e.emit();
}
template<typename T> void two(T x, T y) {
	F2("fmin", m::fmin(x, y)) F2("fmax", m::fmax(x, y)) F2("fdim", m::fdim(x, y)) F2("copysign", m::copysign(x, y))
	{ Ev e("cmp"); e("x", fp(x))("y", fp(y))("r", V{m::isless(x, y), m::islessequal(x, y), m::isgreater(x, y), m::isgreaterequal(x, y), m::islessgreater(x, y), m::isunordered(x, y)}); e.emit(); }
	if (x == x && y == y && std::isfinite(x) && std::isfinite(y)) { Ev e("apx"); e("t", fmt<T>::n())("x", fp(x))("y", fp(y))("r", V{m::equal_to(x, y), m::not_equal_to(x, y), m::less(x, y), m::less_equal(x, y), m::greater(x, y), m::greater_equal(x, y)})("c", m::compare(x, y)); e.emit(); }
}
template<typename T> std::vector<T> specials(bool many) {
	typedef std::numeric_limits<T> L; std::vector<T> p{T(0), L::denorm_min(), L::denorm_min() * 2, L::denorm_min() * 3, L::min() - L::denorm_min(), L::min(), L::min() + L::denorm_min(), L::min() * 2, L::epsilon(), L::epsilon() / 2, T(1) / 4, T(0.5), T(0.5) - L::epsilon() / 4, T(0.5) + L::epsilon() / 2, T(1) - L::epsilon() / 2, T(1), T(1) + L::epsilon(), T(1.5), T(1.5) - L::epsilon(), T(2), T(2.5), T(3), T(3) + 2 * L::epsilon(), T(3.5), T(4), T(7.5), T(8.5), L::max(), L::max() / 2, L::infinity(), L::quiet_NaN()};
	int xs[] = {7, 14, 15, 16, 22, 23, 24, 30, 31, 32, 51, 52, 53, 61, 62, 63, 64, 65, 100, 127, 1000, 1022, 1023, 16000, -20, -60, -126, -127, -148, -900, -1021, -1022, -1030, -1070, -16380, -16400};
	for (int k : xs) if (k < L::max_exponent && k > L::min_exponent - L::digits) { T b = std::ldexp(T(1), k); p.push_back(b); if (many || k % 2) { p.push_back(b * (1 + L::epsilon())); p.push_back(b * (1 - L::epsilon() / 2)); if (k > 0 && k < 66) { p.push_back(b + T(0.5)); p.push_back(b - T(0.5)); p.push_back(b + 1); p.push_back(b - 1); p.push_back(b - T(0.25)); } } }
	std::vector<T> r; for (T v : p) { r.push_back(v); r.push_back(-v); } return r;
}
template<typename T> T anyfp(int lo, int hi) { typedef std::numeric_limits<T> L; return std::ldexp(T(vf::rnd64() >> (vf::rnd(0, 1) ? 0 : vf::rnd(1, 62))) * (vf::rnd(0, 1) ? 1 : -1), std::max(L::min_exponent - L::digits, std::min(L::max_exponent - 66, vf::rnd(lo, hi)))); }
template<typename T> void all() {
	typedef std::numeric_limits<T> L; std::vector<T> s = specials<T>(true), t = specials<T>(false); bool th = vf::thorough();
#if PART == 1
	for (std::size_t i = 0; i < s.size(); ++i) if (th || (i / 2 + i) % 3 == 0 || i < 60) one(s[i]); for (int i = 0; i < (th ? 1500 : 25); ++i) one(anyfp<T>(-66, 4)); for (int i = 0; i < (th ? 800 : 15); ++i) one(anyfp<T>(-17000, 17000));
	for (int q = -40; q <= 40; ++q) one(T(q) / 8);
#elif PART == 2
	for (T v : s) { int ns[] = {0, 1, -1, 2, 10, -10, 24, 53, 100, -100, 149, -149, 1000, -1000, 1023, 1024, -1022, -1023, -1074, -1075, 1100, -1100, 2098, -2098, 16384, -16445, 40000, -40000}; for (int n : ns) if (th || (std::abs(n) * 7 + int(&v - &s[0])) % 16 == 0) scale(v, n); }
	for (int i = 0; i < (th ? 3000 : 120); ++i) { T x = anyfp<T>(-17000, 17000); int e = 0; std::frexp(x, &e); scale(x, i % 2 ? vf::rnd(-2200, 2200) : L::min_exponent - L::digits - e + vf::rnd(-3, 60)); }
#elif PART == 3
	for (std::size_t i = 0; i < t.size(); ++i) for (std::size_t j = 0; j < t.size(); ++j) if (t[i] == t[j] || (i * 7 + j * 13) % (th ? 3 : 71) == 0 || (i < 6 && j < 6)) two(t[i], t[j]);
	for (int i = 0; i < (th ? 2500 : 80); ++i) { T a = anyfp<T>(-70, 4), b = i % 3 ? a * (1 + T(vf::rnd(-8, 8)) * L::epsilon()) : anyfp<T>(-70, 4); two(a, b); }
	for (int i = 0; i < (th ? 2500 : 80); ++i) { T x = anyfp<T>(-70, 4), y = anyfp<T>(-70, 4), z = i % 2 ? -x * y : anyfp<T>(-120, 40); if (i % 3 == 0) { x = T(vf::rnd(-2000, 2000)); y = T(vf::rnd(-2000, 2000)); z = std::ldexp(T(vf::rnd(-999, 999)), vf::rnd(-30, 30)); } if (i % 29 == 0) { x = t[vf::rnd(0, t.size() - 1)]; y = t[vf::rnd(0, t.size() - 1)]; z = t[vf::rnd(0, t.size() - 1)]; }
		Ev e("fma"); e("t", fmt<T>::n())("bi", BI)("x", fp(x))("y", fp(y))("z", fp(z))("r", fp(m::fma(x, y, z))); e.emit(); }
#else
	std::vector<T> ys; for (T v : t) { int e = 0; if (std::isfinite(v)) std::frexp(v, &e); if (std::abs(e) < 1100) ys.push_back(v); }
	for (std::size_t i = 0; i < ys.size(); ++i) for (std::size_t j = 0; j < ys.size(); ++j) if ((i * 7 + j * 13) % (th ? 9 : 211) == 0 || (i < 10 && j < 10 && th)) rem2(ys[i], ys[j]);
	for (int i = 0; i < (th ? 1500 : 50); ++i) { T y = anyfp<T>(-70, 4), x = i % 3 ? anyfp<T>(-70, 4) : y * vf::rnd(-40, 40) / 2 + (vf::rnd(0, 2) ? T(0) : y / 1024); rem2(x, y); }
	for (int i = -20; i <= 20; ++i) for (int j = -6; j <= 6; ++j) { rem2(T(i) / 2, T(j)); rem2(T(i), T(j) / 4); }
	for (int i = 0; i < (th ? 200 : 12); ++i) rem2(anyfp<T>(-1200, 900), anyfp<T>(i % 9 ? -1200 : -17000, 900) * (i % 2));
#endif
}
#if PART == 3
template<typename A, typename B> void icmp() {
	long long vs[] = {0, 1, -1, 2, 100, -100, 127, -128, 255, 256, 32767, -32768, 65535, 2147483647LL, -2147483648LL, 4294967295LL, 4294967296LL, 9223372036854775807LL, (-9223372036854775807LL - 1)};
	for (long long a : vs) for (long long b : vs) { A x = A(a); B y = B(b); Ev e("icm"); e("x", vf::bigz(x))("y", vf::bigz(y))("r", V{m::equal_to(x, y), m::not_equal_to(x, y), m::less(x, y), m::less_equal(x, y), m::greater(x, y), m::greater_equal(x, y)})("c", m::compare(x, y)); e.emit(); }
}
#endif
int main(int ac, char** av) {
	vf::init(ac, av); all<float>(); all<double>(); all<long double>();
#if PART == 3
	icmp<int, int>(); icmp<int, unsigned>(); icmp<unsigned, int>(); icmp<long long, unsigned long long>(); icmp<unsigned long long, long long>(); icmp<short, unsigned long long>(); icmp<unsigned char, int>(); icmp<unsigned, long long>(); icmp<unsigned, unsigned long long>();
#elif PART == 1
	for (int i = -5; i <= 5; ++i) { typedef double T; T x = i; F1("ceil", m::ceil(i)) F1("floor", m::floor(i)) F1("round", m::round(i)) F1("trunc", m::trunc(i)) F1("ipart", m::integer_part(i)) F1("fpart", m::fractional_part(i)) F1("fabs", m::fabs(i)) F1("logb", m::logb(i)) F1("sig", m::float2_significand(i)) E1("ilogb", m::ilogb(i)) E1("exp", m::float2_exponent(i))
		ints<int, double>(x, true, "floor", [](double v) -> int { return m::ifloor(int(v)); }); ints<int, double>(x, true, "ceil", [](double v) -> int { return m::iceil(int(v)); }); ints<int, double>(x, true, "trunc", [](double v) -> int { return m::itrunc(int(v)); }); ints<long, double>(x, true, "round", [](double v) -> long { return m::lround(int(v)); }); ints<int, double>(x, true, "round", [](double v) -> int { return m::iround(int(v)); });
		for (int j = -3; j <= 3; ++j) { T y = j; int n = j; F2("fmod", m::fmod(i, j)) F2("fmod", m::fmod(float(i), j)) F2("remainder", m::remainder(i, y)) F2("fmin", m::fmin(i, j)) F2("fmax", m::fmax(float(i), y)) F2("fdim", m::fdim(i, j)) F2("copysign", m::copysign(i, j ? j : 1) * (j ? 1 : 1)) SC("ldexp", m::ldexp(i, n)) SC("scalbn", m::scalbn(i, n)) } }
#endif
	return vf::done();
}
