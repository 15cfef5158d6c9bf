// C36: the same computation as a constant expression and at run time, in every configuration.
// A family F has at(i), a constexpr function giving a record of results for the i-th input, and emit(record).
// Every record is computed twice: in a constexpr table, and by the same call with an index the compiler cannot see.
#include "vf.hpp"
#include <sprout/config.hpp>
#include <sprout/array.hpp>
#include <sprout/index_tuple.hpp>
#include <limits>
#include <cmath>
#ifndef PART
#define PART 1
#endif
using vf::Ev; typedef std::vector<int> V; typedef unsigned long long W64;
template<typename F, typename Idx> struct Table;
template<typename F, sprout::index_t... I> struct Table<F, sprout::index_tuple<I...> > { typedef decltype(F::at(0u)) rec; static constexpr rec v[sizeof...(I)] = {F::at(unsigned(I))...}; };
template<typename F, sprout::index_t... I> constexpr typename Table<F, sprout::index_tuple<I...> >::rec Table<F, sprout::index_tuple<I...> >::v[sizeof...(I)];
template<typename F, int N> void both(char const* name) {
	typedef Table<F, typename sprout::make_index_tuple<N>::type> T;
	for (int i = 0; i < N; ++i) {
		volatile unsigned j = unsigned(i);
		vf::tag() = std::string(name) + " constant"; F::emit(T::v[i]);
		vf::tag() = std::string(name) + " run time"; typename T::rec r = F::at(j); F::emit(r);
	}
	if (vf::thorough()) for (int i = 0; i < 6 * N; ++i) { volatile unsigned j = unsigned(vf::rng()()); typename T::rec r = F::at(j); F::emit(r); }
}
// the i-th of a fixed sequence of words
constexpr unsigned mx2(unsigned h) { return h ^ (h >> 16); }
constexpr unsigned mx1(unsigned h) { return mx2((h ^ (h >> 13)) * 3266489917u); }
constexpr unsigned mix(unsigned i, unsigned k) { return mx1(((i * 2654435761u + k * 2246822519u + 374761393u) ^ ((i * 2654435761u + k * 2246822519u + 374761393u) >> 15)) * 2246822519u); }
constexpr int pick(unsigned i, unsigned k, int lo, int hi) { return lo + int(mix(i, k) % unsigned(hi - lo + 1)); }
constexpr W64 mix64(unsigned i, unsigned k) { return (W64(mix(i, k)) << 32) | mix(i, k + 7919); }
template<typename T, std::size_t N> V vec(sprout::array<T, N> const& a) { V v; for (std::size_t i = 0; i < N; ++i) v.push_back(int(a[i])); return v; }
typedef sprout::array<int, 6> A6; typedef sprout::array<int, 3> A3; typedef sprout::array<int, 12> A12;
constexpr A6 arr6(unsigned i, unsigned k, int lo, int hi) { return A6{{pick(i, k, lo, hi), pick(i, k + 1, lo, hi), pick(i, k + 2, lo, hi), pick(i, k + 3, lo, hi), pick(i, k + 4, lo, hi), pick(i, k + 5, lo, hi)}}; }
constexpr A3 arr3(unsigned i, unsigned k, int lo, int hi) { return A3{{pick(i, k, lo, hi), pick(i, k + 1, lo, hi), pick(i, k + 2, lo, hi)}}; }
// running sums: a sorted array
constexpr A6 up6(unsigned i, unsigned k, int a0, int d1, int d2, int d3, int d4, int d5) { return (void)i, (void)k, A6{{a0, a0 + d1, a0 + d1 + d2, a0 + d1 + d2 + d3, a0 + d1 + d2 + d3 + d4, a0 + d1 + d2 + d3 + d4 + d5}}; }
constexpr A6 sorted6(unsigned i, unsigned k) { return up6(i, k, pick(i, k, 0, 2), pick(i, k + 1, 0, 2), pick(i, k + 2, 0, 1), pick(i, k + 3, 0, 2), pick(i, k + 4, 0, 1), pick(i, k + 5, 0, 2)); }
struct greater_ { constexpr bool operator()(int x, int y) const { return x > y; } };
struct odd_ { constexpr bool operator()(int x) const { return x % 2 != 0; } };

#if PART == 1
#include <sprout/bit/operation.hpp>
#include <sprout/net/endian.hpp>
#include <sprout/endian_traits.hpp>
#include <sprout/integer/carry_to_exp2.hpp>
template<typename T> vf::raw L(T x) { return vf::limbs(typename std::make_unsigned<T>::type(x)); }
template<typename T> struct Word {
	typedef typename std::make_unsigned<T>::type U; static constexpr int W = int(sizeof(T) * 8);
	static constexpr W64 shape(unsigned i, W64 v, int s) {
		return s == 0 ? v & mix64(i, 3) & mix64(i, 4) : s == 1 ? v | mix64(i, 3) | mix64(i, 4) : s == 2 ? 1ULL << (v % W) : s == 3 ? ~(1ULL << (v % W)) : s == 4 ? (1ULL << (v % W)) - 1 : s == 5 ? ~((1ULL << (v % W)) - 1)
			: s == 6 ? v << (mix(i, 5) % W) : s == 7 ? W64(U(v)) >> (mix(i, 5) % W) : s == 8 ? 0xffULL << (8 * (v % (W / 8))) : v;
	}
	static constexpr T of(unsigned i) { return i == 0 ? T(0) : i == 1 ? T(U(~U(0))) : i == 2 ? T(U(U(1) << (W - 1))) : i == 3 ? T(U(U(1) << (W - 1)) - U(1)) : T(U(shape(i, mix64(i, 1), int(mix(i, 2) % 11)))); }
};
static const char* CN[] = {"pop", "par", "clz", "ctz", "clrsb", "len", "l0", "l1", "t0", "t1"};
static const char* WN[] = {"rev", "i0", "i1", "mt0", "mt1", "mt01", "mt10", "r1", "rt1", "s0", "st0", "c2"};
template<typename T> struct Unary {
	struct rec { T x; int c[10]; T w[12]; int big[8], little[8], def[8]; };
	static constexpr int B(int k) { return k < int(sizeof(T)) ? k : 0; }
	static constexpr rec of(T x) {
		return rec{x, {int(sprout::popcount(x)), int(sprout::parity(x)), int(sprout::clz(x)), int(sprout::ctz(x)), int(sprout::clrsb(x)), int(sprout::bit_length(x)), int(sprout::cntl0(x)), int(sprout::cntl1(x)), int(sprout::cntt0(x)), int(sprout::cntt1(x))},
			{sprout::bit_reverse(x), sprout::isols0b(x), sprout::isols1b(x), sprout::maskt0(x), sprout::maskt1(x), sprout::maskt0ls1b(x), sprout::maskt1ls0b(x), sprout::rstls1b(x), sprout::rstt1(x), sprout::setls0b(x), sprout::sett0(x), sprout::carry_to_exp2(x)},
#define EIGHT(TR) {TR<T>::get_byte(x, B(0)), TR<T>::get_byte(x, B(1)), TR<T>::get_byte(x, B(2)), TR<T>::get_byte(x, B(3)), TR<T>::get_byte(x, B(4)), TR<T>::get_byte(x, B(5)), TR<T>::get_byte(x, B(6)), TR<T>::get_byte(x, B(7))}
			EIGHT(sprout::big_endian_traits), EIGHT(sprout::little_endian_traits), EIGHT(sprout::endian_traits)};
	}
	static constexpr rec at(unsigned i) { return of(Word<T>::of(i)); }
	static void emit(rec const& r) {
		Ev e("u"); int n = int(sizeof(T)); e("w", n * 8)("x", L(r.x)); for (int k = 0; k < 10; ++k) e(CN[k], r.c[k]); for (int k = 0; k < 12; ++k) e(WN[k], L(r.w[k]));
		e("sg", std::is_signed<T>::value)("big", V(r.big, r.big + n))("little", V(r.little, r.little + n))("def", V(r.def, r.def + n))("zb", L(r.x))("zl", L(r.x))("esz", int(sprout::endian_traits<T>::size())); e.emit();
	}
};
static const char* BN[] = {"set", "rst", "flip", "sge", "rge", "fge", "sle", "rle", "fle", "shal", "shar", "shll", "shlr", "rotl", "rotr", "revin"};
template<typename T> struct Binary {
	struct rec { T x; int b; bool t; T w[16]; };
	static constexpr rec of(T x, int b) {
		return rec{x, b, sprout::testbit(x, b), {sprout::setbit(x, b), sprout::rstbit(x, b), sprout::flipbit(x, b), sprout::setbitsge(x, b), sprout::rstbitsge(x, b), sprout::flipbitsge(x, b), sprout::setbitsle(x, b), sprout::rstbitsle(x, b), sprout::flipbitsle(x, b),
			sprout::shal(x, b), sprout::shar(x, b), sprout::shll(x, b), sprout::shlr(x, b), sprout::rotl(x, b), sprout::rotr(x, b), sprout::bit_reverse_in(x, b + 1)}};
	}
	static constexpr rec at(unsigned i) { return of(Word<T>::of(i / 2 + 1), int((i % 2 ? mix(i, 11) : i / 2) % (sizeof(T) * 8))); }
	static void emit(rec const& r) { Ev e("b"); e("w", int(sizeof(T) * 8))("x", L(r.x))("b", r.b)("test", r.t); for (int k = 0; k < 16; ++k) e(BN[k], L(r.w[k])); e.emit(); }
};
template<typename T> struct Net {
	struct rec { T x, h, n, rt; };
	static constexpr rec of(T x) { return rec{x, sprout::net::hton(x), sprout::net::ntoh(x), sprout::net::ntoh(sprout::net::hton(x))}; }
	static constexpr rec at(unsigned i) { return of(Word<T>::of(i)); }
	static void emit(rec const& r) { Ev e("n"); e("w", int(sizeof(T) * 8))("x", L(r.x))("h", L(r.h))("n", L(r.n))("rt", L(r.rt)); e.emit(); }
};
template<typename T> void bits(char const* n) { both<Unary<T>, 120>(n); both<Binary<T>, 128>(n); }
void all() {
	bits<signed char>("s8"); bits<unsigned char>("u8"); bits<short>("s16"); bits<unsigned short>("u16"); bits<int>("s32"); bits<unsigned>("u32"); bits<long>("s64"); bits<unsigned long>("u64"); bits<long long>("sll"); bits<unsigned long long>("ull");
	both<Net<unsigned short>, 60>("net16"); both<Net<unsigned>, 60>("net32"); both<Net<unsigned long long>, 60>("net64");
}
#elif PART == 2
#include <sprout/cmath.hpp>
#include <sprout/math/floating_point.hpp>
#include <sprout/math/nearest.hpp>
#include <sprout/math/remainders.hpp>
#include <sprout/math/classifications.hpp>
#include <sprout/math/comparisons.hpp>
#include <sprout/math/minmax.hpp>
#include <sprout/math/manipulations.hpp>
#include <sprout/math/muladd.hpp>
#include <sprout/math/integer.hpp>
#include <sprout/math/abs.hpp>
namespace m = sprout::math;
#if SPROUT_USE_BUILTIN_CMATH_FUNCTION
static const bool BI = true;
#else
static const bool BI = false;
#endif
template<typename T> struct fmt; template<> struct fmt<float> { static const char* n() { return "f"; } }; template<> struct fmt<double> { static const char* n() { return "d"; } }; template<> struct fmt<long double> { static const char* n() { return "l"; } };
template<typename T> vf::raw fp(T x) {
	char b[400]; int s = std::signbit(x) ? -1 : 1;
	if (x != x) { std::snprintf(b, sizeof b, "{\"k\":\"q\",\"s\":%d,\"m\":[],\"e\":0}", s); return vf::raw{b}; }
	if (std::isinf(x)) { std::snprintf(b, sizeof b, "{\"k\":\"i\",\"s\":%d,\"m\":[],\"e\":0}", s); return vf::raw{b}; }
	int e = 0; long double f = std::frexp((long double)(x < 0 ? -x : x), &e); unsigned long long q = (unsigned long long)std::ldexp(f, 64); e -= 64;
	if (!q) e = 0;
	while (q && !(q & 1)) { q >>= 1; ++e; }
	std::string r = vf::big(q).s; std::snprintf(b, sizeof b, "{\"k\":\"n\",\"s\":%d,\"m\":%s,\"e\":%d}", s, r.c_str(), e); return vf::raw{b};
}
static int code(int v) { return v == std::numeric_limits<int>::max() ? 999999 : v == std::numeric_limits<int>::min() ? -999999 : v; }
template<typename T> constexpr T pw(int k) { return k == 0 ? T(1) : k < 0 ? pw<T>(k + 1) / 2 : pw<T>(k - 1) * 2; }
template<typename T> struct Num {
	typedef std::numeric_limits<T> N; static constexpr bool WIDE = N::max_exponent > 2000; // the depth of the portable functions grows with the exponent
	static constexpr T sgn(unsigned i, T v) { return i % 2 ? -v : v; }
	// finite values around powers of two and halves
	static constexpr T fin(unsigned i, int s) {
		return s == 0 ? T(mix(i, 1)) * pw<T>(pick(i, 2, -36, 4)) : s == 1 ? T(mix64(i, 1)) * pw<T>(pick(i, 2, -70, 4)) : s == 2 ? pw<T>(pick(i, 2, -20, 62)) : s == 3 ? pw<T>(pick(i, 2, 0, 62)) + T(0.5) : s == 4 ? pw<T>(pick(i, 2, 0, 62)) - T(0.5) : s == 5 ? T(pick(i, 2, 0, 40)) / 8
			: s == 6 ? T(pick(i, 2, 0, 2000)) : s == 7 ? (WIDE ? pw<T>(-1060) : N::denorm_min()) * T(mix(i, 2) % 1000) : s == 8 ? (WIDE ? pw<T>(-1000) : N::min()) * T(pick(i, 2, 1, 9)) / 4 : T(pick(i, 2, 0, 100)) / 10;
	}
	static constexpr T special(int k) { return k == 0 ? T(0) : k == 1 ? N::infinity() : k == 2 ? (WIDE ? pw<T>(1000) * T(1.5) : N::max()) : k == 3 ? (WIDE ? pw<T>(-1000) : N::min()) : k == 4 ? (WIDE ? pw<T>(-1060) : N::denorm_min()) : k == 5 ? N::epsilon() : T(1); }
	static constexpr T of(unsigned i) { return sgn(i, i < 14 ? special(int(i / 2)) : fin(i, int(mix(i, 3) % 10))); }
	static constexpr T finite(unsigned i) { return sgn(i, fin(i, int(mix(i, 3) % 10))); }
	static constexpr T near1(unsigned i) { return sgn(mix(i, 9), fin(i, int(mix(i, 3) % 7))); }
};
static const char* FN1[] = {"ceil", "floor", "round", "trunc", "ipart", "fpart", "fpart", "ipart", "fabs", "fabs", "sig", "sig", "sig", "sig"};
static const char* EN1[] = {"exp", "exp", "exp", "exp"};
template<typename T> struct One {
	struct rec { T x; T f[14]; int e[4]; int c; bool r[6], sg, ieo[3]; };
	static constexpr rec of(T x) {
		return rec{x, {m::ceil(x), m::floor(x), m::round(x), m::trunc(x), m::integer_part(x), m::fractional_part(x), m::frac_int(x).first, m::frac_int(x).second, m::fabs(x), m::abs(x), m::float_significand(x), m::float2_significand(x), m::float_sig_exp(x).first, m::float2_sig_exp(x).first},
			{m::float_exponent(x), m::float2_exponent(x), m::float_sig_exp(x).second, m::float2_sig_exp(x).second}, m::fpclassify(x), {m::isnan(x), m::isinf(x), m::isfinite(x), m::isnormal(x), (m::issubnormal)(x), (m::iszero)(x)}, m::signbit(x), {m::is_integer(x), m::is_even(x), m::is_odd(x)}};
	}
	static constexpr rec at(unsigned i) { return of(Num<T>::of(i)); }
	static void emit(rec const& r) {
		for (int k = 0; k < 14; ++k) { Ev e("f1"); e("fn", FN1[k])("t", fmt<T>::n())("bi", BI)("x", fp(r.x))("r", fp(r.f[k])); e.emit(); }
		for (int k = 0; k < 4; ++k) { Ev e("e1"); e("fn", EN1[k])("x", fp(r.x))("r", code(r.e[k])); e.emit(); }
		int c = r.c; Ev e("cls"); e("t", fmt<T>::n())("bi", BI)("x", fp(r.x))("c", c == FP_NAN ? "q" : c == FP_INFINITE ? "i" : c == FP_ZERO ? "z" : c == FP_SUBNORMAL ? "s" : c == FP_NORMAL ? "n" : "?")("r", V(r.r, r.r + 6))("sg", r.sg)("ieo", V(r.ieo, r.ieo + 3)); e.emit();
	}
};
// logarithm of the exponent (not of zero: a pole is not a constant) and conversions to integers
static const char* IN1[] = {"floor", "ceil", "round", "trunc"};
template<typename T> struct Ints {
	struct rec { T x; T f[2]; int e[2]; long l[6]; int i[4]; };
	static constexpr rec of(T x) {
		return rec{x, {m::logb(x), m::logb2(x)}, {m::ilogb(x), m::ilogb2(x)}, {m::ifloor<long>(x), m::iceil<long>(x), m::iround<long>(x), m::itrunc<long>(x), m::lround(x), long(m::llround(x))}, {m::ifloor<int>(x / 4096 / 4096 / 4096), m::iceil<int>(x / 4096 / 4096 / 4096), m::iround<int>(x / 4096 / 4096 / 4096), m::itrunc<int>(x / 4096 / 4096 / 4096)}};
	}
	static constexpr rec at(unsigned i) { return of(Num<T>::sgn(mix(i, 9), small(Num<T>::fin(i, int(mix(i, 3) % 7))))); }
	static constexpr T small(T x) { return x == 0 ? T(7) : x >= pw<T>(62) ? small(x / 16) : x; }
	static void emit(rec const& r) {
		for (int k = 0; k < 2; ++k) { Ev e("f1"); e("fn", "logb")("t", fmt<T>::n())("bi", BI)("x", fp(r.x))("r", fp(r.f[k])); e.emit(); }
		for (int k = 0; k < 2; ++k) { Ev e("e1"); e("fn", "ilogb")("x", fp(r.x))("r", code(r.e[k])); e.emit(); }
		for (int k = 0; k < 6; ++k) { Ev e("i1"); e("fn", k < 4 ? IN1[k] : "round")("b", 64)("x", fp(r.x))("r", vf::bigz(r.l[k])); e.emit(); }
		for (int k = 0; k < 4; ++k) { T y = r.x / 4096 / 4096 / 4096; Ev e("i1"); e("fn", IN1[k])("b", 32)("x", fp(y))("r", vf::bigz(r.i[k])); e.emit(); }
	}
};
static const char* F2[] = {"fmin", "fmax", "copysign"};
template<typename T> struct Two {
	struct rec { T x, y; T f[3]; bool c[6]; };
	static constexpr rec of(T x, T y) { return rec{x, y, {m::fmin(x, y), m::fmax(x, y), m::copysign(x, y)}, {m::isless(x, y), m::islessequal(x, y), m::isgreater(x, y), m::isgreaterequal(x, y), m::islessgreater(x, y), m::isunordered(x, y)}}; }
	static constexpr rec at(unsigned i) { return of(Num<T>::of(mix(i, 21) % 40), i % 5 == 0 ? Num<T>::of(mix(i, 21) % 40) : Num<T>::of(mix(i, 22) % 40)); }
	static void emit(rec const& r) {
		for (int k = 0; k < 3; ++k) { Ev e("f2"); e("fn", F2[k])("t", fmt<T>::n())("bi", BI)("x", fp(r.x))("y", fp(r.y))("r", fp(r.f[k])); e.emit(); }
		Ev e("cmp"); e("x", fp(r.x))("y", fp(r.y))("r", V(r.c, r.c + 6)); e.emit();
	}
};
static const char* R2[] = {"fmod", "remainder", "remainder", "fdim"};
template<typename T> struct Rem {
	struct rec { T x, y; T f[4]; int q[2]; T z, fma; int n; T sc[3]; bool ap[6]; int c; };
	static constexpr rec of(T x, T y, T z, int n) {
		return rec{x, y, {m::fmod(x, y), m::remainder(x, y), m::rem_quo(x, y).first, m::fdim(x, y)}, {int(m::rem_quo(x, y).second), int(m::quotient(x, y))}, z, m::fma(x, y, z), n, {m::ldexp(x, n), m::scalbn(x, n), m::scalbln(x, long(n))},
			{m::equal_to(x, y), m::not_equal_to(x, y), m::less(x, y), m::less_equal(x, y), m::greater(x, y), m::greater_equal(x, y)}, m::compare(x, y)};
	}
	static constexpr T nz(T y) { return y == 0 ? T(3) : y; }
	static constexpr rec at(unsigned i) {
		return i % 3 == 0 ? of(T(pick(i, 1, -40, 40)) / 2, nz(T(pick(i, 2, -12, 12)) / 4), T(pick(i, 3, -99, 99)), pick(i, 4, -30, 30))
			: of(Num<T>::near1(i) , nz(i % 3 == 1 ? Num<T>::near1(mix(i, 5)) : T(pick(i, 2, -12, 12)) / 4), i % 2 ? Num<T>::near1(mix(i, 6)) : T(1), pick(i, 4, -60, 30));
	}
	static void emit(rec const& r) {

		for (int k = 0; k < 4; ++k) { Ev e("f2"); e("fn", R2[k])("t", fmt<T>::n())("bi", BI)("x", fp(r.x))("y", fp(r.y))("r", fp(r.f[k])); e.emit(); }
		{ Ev e("quo"); e("x", fp(r.x))("y", fp(r.y))("r", V(r.q, r.q + 2)); e.emit(); }
		{ Ev e("fma"); e("t", fmt<T>::n())("bi", BI)("x", fp(r.x))("y", fp(r.y))("z", fp(r.z))("r", fp(r.fma)); e.emit(); }
		static const char* SN[] = {"ldexp", "scalbn", "scalbln"};
		for (int k = 0; k < 3; ++k) { Ev e("sc"); e("fn", SN[k])("t", fmt<T>::n())("x", fp(r.x))("n", r.n)("r", fp(r.sc[k])); e.emit(); }
		{ Ev e("apx"); e("t", fmt<T>::n())("x", fp(r.x))("y", fp(r.y))("r", V(r.ap, r.ap + 6))("c", r.c); e.emit(); }
	}
};
template<typename T> void run(char const* n) { both<One<T>, 90>(n); both<Ints<T>, 60>(n); both<Two<T>, 90>(n); both<Rem<T>, 70>(n); }
void all() { run<float>("float"); run<double>("double"); run<long double>("long double"); }
#elif PART == 3
#include <sprout/algorithm.hpp>
static void whole(char const* op, char const* c, int m, A6 const& a, A6 const& r) { Ev e(op); e("c", c)("m", m)("w", vec(a))("l", 0)("h", 6)("r", vec(r))("rl", 0)("rh", 6); e.emit(); }
struct Sorts {
	struct rec { A6 a; int m; A6 r[8]; int until[2]; bool is[2]; };
	static constexpr rec of(A6 const& a, int m) {
		return rec{a, m, {sprout::sort(a), sprout::sort(a, greater_()), sprout::stable_sort(a), sprout::stable_sort(a, greater_()), sprout::partial_sort(a, a.begin() + m), sprout::partial_sort(a, a.begin() + m, greater_()), sprout::nth_element(a, a.begin() + m), sprout::nth_element(a, a.begin() + m, greater_())},
			{int(sprout::is_sorted_until(a.begin(), a.end()) - a.begin()), int(sprout::is_sorted_until(a.begin(), a.end(), greater_()) - a.begin())}, {sprout::is_sorted(a.begin(), a.end()), sprout::is_sorted(a.begin(), a.end(), greater_())}};
	}
	static constexpr rec at(unsigned i) { return of(i % 4 == 0 ? sorted6(i, 1) : arr6(i, 1, 0, 6), pick(i, 9, 0, 5)); }
	static void emit(rec const& r) {
		static char const* N[] = {"sort", "stable_sort", "partial_sort", "nth_element"};
		for (int k = 0; k < 8; ++k) whole(N[k / 2], k % 2 ? "gt" : "lt", r.m, r.a, r.r[k]);
		for (int k = 0; k < 2; ++k) { Ev e("is_sorted"); e("c", k ? "gt" : "lt")("a", vec(r.a))("r", r.is[k]); e.emit(); Ev f("is_sorted_until"); f("c", k ? "gt" : "lt")("a", vec(r.a))("r", r.until[k]); f.emit(); }
	}
};
void all() { both<Sorts, 60>("sort"); }
#elif PART == 4
#include <sprout/algorithm.hpp>
struct Sets {
	struct rec { A6 a, b, m6; A12 w; A12 r[5]; A6 im; bool inc; };
	static constexpr A12 buf() { return A12{{9001, 9002, 9003, 9004, 9005, 9006, 9007, 9008, 9009, 9010, 9011, 9012}}; }
	static constexpr rec of(A6 const& a, A6 const& b, A12 const& w, A6 const& j) {
		return rec{a, b, j, w, {sprout::merge(a.begin(), a.end(), b.begin(), b.end(), w), sprout::set_union(a.begin(), a.end(), b.begin(), b.end(), w), sprout::set_intersection(a.begin(), a.end(), b.begin(), b.end(), w), sprout::set_difference(a.begin(), a.end(), b.begin(), b.end(), w), sprout::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), w)},
			sprout::inplace_merge(j, j.begin() + 3), sprout::includes(a.begin(), a.end(), b.begin(), b.end())};
	}
	static constexpr A6 two(A6 const& a, A6 const& b) { return A6{{a[0], a[1], a[2], b[3], b[4], b[5]}}; }
	static constexpr rec at(unsigned i) { return of(sorted6(i, 1), sorted6(i, 20), buf(), two(sorted6(i, 40), sorted6(i, 60))); }
	static void emit(rec const& r) {
		static char const* N[] = {"merge", "set_union", "set_intersection", "set_difference", "set_symmetric_difference"};
		for (int k = 0; k < 5; ++k) { Ev e("fixed"); e("op", N[k])("c", "lt")("a", vec(r.a))("b", vec(r.b))("w", vec(r.w))("l", 0)("h", 12)("r", vec(r.r[k]))("rl", 0)("rh", 12); e.emit(); }
		{ Ev e("includes"); e("c", "lt")("a", vec(r.a))("b", vec(r.b))("r", r.inc); e.emit(); }
		{ Ev e("inplace_merge"); e("c", "lt")("m", 3)("w", vec(r.m6))("l", 0)("h", 6)("r", vec(r.im))("rl", 0)("rh", 6); e.emit(); }
	}
};
void all() { both<Sets, 60>("sets"); }
#elif PART == 5
#include <sprout/algorithm.hpp>
struct Parts {
	struct rec { A6 a, s; int v; A6 p, sp, spc, pc; int lb, ub; int eq[2]; bool bs, ip; };
	static constexpr rec of(A6 const& a, A6 const& s, A6 const& w, int v) {
		return rec{a, s, v, sprout::partition(a, odd_()), sprout::stable_partition(a, odd_()), sprout::stable_partition_copy(a.begin(), a.end(), w, odd_()), sprout::partition_copy(a.begin(), a.end(), w, odd_()),
			int(sprout::lower_bound(s.begin(), s.end(), v) - s.begin()), int(sprout::upper_bound(s.begin(), s.end(), v) - s.begin()), {int(sprout::equal_range(s.begin(), s.end(), v).first - s.begin()), int(sprout::equal_range(s.begin(), s.end(), v).second - s.begin())},
			sprout::binary_search(s.begin(), s.end(), v), sprout::is_partitioned(a.begin(), a.end(), odd_())};
	}
	static constexpr A6 buf() { return A6{{9001, 9002, 9003, 9004, 9005, 9006}}; }
	static constexpr rec at(unsigned i) { return of(arr6(i, 1, 0, 9), sorted6(i, 30), buf(), pick(i, 50, -1, 9)); }
	static void emit(rec const& r) {
		V buf = vec(Parts::buf());
		{ Ev e("partition"); e("u", "odd")("w", vec(r.a))("l", 0)("h", 6)("r", vec(r.p))("rl", 0)("rh", 6); e.emit(); } { Ev e("stable_partition"); e("u", "odd")("w", vec(r.a))("l", 0)("h", 6)("r", vec(r.sp))("rl", 0)("rh", 6); e.emit(); }
		{ Ev e("stable_partition_copy"); e("u", "odd")("a", vec(r.a))("w", buf)("l", 0)("h", 6)("r", vec(r.spc))("rl", 0)("rh", 6); e.emit(); } { Ev e("partition_copy"); e("u", "odd")("a", vec(r.a))("w", buf)("l", 0)("h", 6)("r", vec(r.pc))("rl", 0)("rh", 6); e.emit(); }
#define B(N, X) { Ev e(N); e("c", "lt")("a", vec(r.s))("v", r.v)("r", X); e.emit(); }
		B("lower_bound", r.lb) B("upper_bound", r.ub) B("equal_range", (V{r.eq[0], r.eq[1]})) B("binary_search", r.bs) { Ev e("is_partitioned"); e("u", "odd")("a", vec(r.a))("r", r.ip); e.emit(); }
#undef B
	}
};
void all() { both<Parts, 80>("partition"); }
#elif PART == 6
#include <sprout/algorithm.hpp>
struct neg_ { constexpr int operator()(int x) const { return -x; } };
struct sub_ { constexpr int operator()(int x, int y) const { return x - y; } };
struct Copies {
	struct rec { A6 a, b; int m, i, j, v; A6 c[16]; };
	static constexpr A6 buf() { return A6{{9001, 9002, 9003, 9004, 9005, 9006}}; }
	static constexpr rec of(A6 const& a, A6 const& b, A6 const& w, int m, int i, int j, int v) {
		return rec{a, b, m, i, j, v, {sprout::copy(a.begin(), a.end(), w), sprout::copy_if(a.begin(), a.end(), w, odd_()), sprout::copy_n(a.begin(), m, w), sprout::transform(a.begin(), a.end(), w, neg_()), sprout::transform(a.begin(), a.end(), b.begin(), w, sub_()), sprout::replace(a, v, 77), sprout::replace_if(a, odd_(), 77),
			sprout::remove(a, v), sprout::remove_if(a, odd_()), sprout::unique(a), sprout::reverse(a), sprout::rotate(a, a.begin() + m), sprout::swap_element(a, a.begin() + i, a.begin() + j), sprout::fill(a, v), sprout::fill_n(a, m, v), sprout::clamp_range(a, 2, 5)}};
	}
	static constexpr rec at(unsigned i) { return of(arr6(i, 1, 0, 7), arr6(i, 20, 0, 99), buf(), pick(i, 40, 0, 6), pick(i, 41, 0, 5), pick(i, 42, 0, 5), pick(i, 43, 0, 7)); }
	static void emit(rec const& r) {
		int k = 0;
#define X(N, EXTRA, SRC) { Ev e(N); e("f", "fixed") EXTRA; if (SRC) e("a", vec(r.a))("w", vec(buf())); else e("w", vec(r.a)); e("l", 0)("h", 6)("r", vec(r.c[k++]))("rl", 0)("rh", 6); e.emit(); }
		X("copy", , 1) X("copy_if", ("u", "odd"), 1) X("copy_n", ("n", r.m), 1) X("transform", ("op", "neg"), 1) X("transform2", ("op", "sub")("b", vec(r.b)), 1) X("replace", ("v", r.v)("n", 77), 0) X("replace_if", ("u", "odd")("n", 77), 0)
		X("remove", ("v", r.v), 0) X("remove_if", ("u", "odd"), 0) X("unique", ("p", "eq"), 0) X("reverse", , 0) X("rotate", ("m", r.m), 0) X("swap_element", ("i", r.i)("j", r.j), 0) X("fill", ("v", r.v), 0) X("fill_n", ("n", r.m)("v", r.v), 0) X("clamp_range", ("c", "lt")("lo", 2)("hi", 5), 0)
#undef X
	}
};
void all() { both<Copies, 80>("transform"); }
#elif PART == 7
#include <sprout/algorithm.hpp>
struct Finds {
	struct rec { A6 a; A3 b; A6 b6; int v; int p[10]; bool q[9]; int t; };
	template<typename I> static constexpr int d(I x, I y) { return int(x - y); }
	static constexpr rec of(A6 const& a, A3 const& b, A6 const& c, int v) {
#define RG a.begin(), a.end()
#define RB b.begin(), b.end()
		return rec{a, b, c, v, {d(sprout::find_if(RG, odd_()), a.begin()), d(sprout::find_if_not(RG, odd_()), a.begin()), d(sprout::find(RG, v), a.begin()), d(sprout::search_n(RG, 2, v), a.begin()), d(sprout::adjacent_find(RG), a.begin()), d(sprout::search(RG, b.begin(), b.begin() + 2), a.begin()), d(sprout::find_end(RG, b.begin(), b.begin() + 2), a.begin()), d(sprout::find_first_of(RG, RB), a.begin()), d(sprout::min_element(RG), a.begin()), d(sprout::max_element(RG), a.begin())},
			{sprout::all_of(RG, odd_()), sprout::any_of(RG, odd_()), sprout::none_of(RG, odd_()), sprout::one_of(RG, odd_()), sprout::is_permutation(RG, c.begin(), c.end()), sprout::equal(RG, c.begin(), c.end()), sprout::lexicographical_compare(RG, c.begin(), c.end()), sprout::is_increasing(RG), sprout::is_strictly_decreasing(RG)},
			sprout::tristate_lexicographical_compare(RG, c.begin(), c.end())};
	}
	static constexpr A6 perm(A6 const& a) { return A6{{a[3], a[5], a[0], a[1], a[4], a[2]}}; }
	static constexpr rec at(unsigned i) { return of(arr6(i, 1, 0, 3), arr3(i, 20, 0, 3), i % 3 == 0 ? arr6(i, 1, 0, 3) : i % 3 == 1 ? perm(arr6(i, 1, 0, 3)) : arr6(i, 40, 0, 3), pick(i, 50, 0, 3)); }
	static void emit(rec const& r) {
		static char const* P[] = {"find_if", "find_if_not", "find", "search_n", "adjacent_find", "search", "find_end", "find_first_of", "min_element", "max_element"}; static char const* Q[] = {"all_of", "any_of", "none_of", "one_of", "is_permutation", "equal", "lexicographical_compare", "is_increasing", "is_strictly_decreasing"};
		V b2 = vec(r.b); b2.pop_back();
		for (int k = 0; k < 10; ++k) { Ev e(P[k]); e("a", vec(r.a))("b", k < 7 ? b2 : vec(r.b))("u", "odd")("p", "eq")("c", "lt")("n", 2)("v", r.v)("r", r.p[k]); e.emit(); }
		for (int k = 0; k < 9; ++k) { Ev e(Q[k]); e("a", vec(r.a))("b", vec(r.b6))("u", "odd")("p", "eq")("c", "lt")("r", r.q[k]); e.emit(); }
		Ev e("tristate"); e("a", vec(r.a))("b", vec(r.b6))("c", "lt")("r", r.t < 0 ? -1 : r.t > 0 ? 1 : 0); e.emit();
	}
};
void all() { both<Finds, 80>("search"); }
#elif PART == 8
#include <sprout/operation.hpp>
template<std::size_t N> static void edit(char const* op, int pos, V const& x, int n, int k, A6 const& a, sprout::array<int, N> const& r, bool grows) {
	Ev e(op); e("f", "fixed")("pos", pos); if (grows) e("x", x)("n", n); e("k", k)("pad", 0)("ar", true)("w", vec(a))("l", 0)("h", 6)("r", vec(r))("rl", 0)("rh", int(N)); e.emit();
}
typedef sprout::array<int, 7> A7; typedef sprout::array<int, 8> A8; typedef sprout::array<int, 9> A9; typedef sprout::array<int, 5> A5;
struct Edits {
	struct rec { A6 a; int p, x; A3 y; A7 pb, pf, in; A8 in2; A9 ap, apb, apf; A5 er, popb, popf; };
	static constexpr rec of(A6 const& a, int p, int x, A3 const& y) {
		return rec{a, p, x, y, sprout::push_back(a, x), sprout::push_front(a, x), sprout::insert(a, p, x), sprout::insert_n<2>(a, p, x), sprout::append(a, p, y), sprout::append_back(a, y), sprout::append_front(a, y), sprout::erase(a, p % 6), sprout::pop_back(a), sprout::pop_front(a)};
	}
	static constexpr rec at(unsigned i) { return of(arr6(i, 1, 0, 99), pick(i, 20, 0, 6), pick(i, 21, 100, 199), arr3(i, 30, 200, 299)); }
	static void emit(rec const& r) {
		V x(1, r.x), y = vec(r.y), none;
		edit("push_back", 0, x, 1, 0, r.a, r.pb, true); edit("push_front", 0, x, 1, 0, r.a, r.pf, true); edit("insert", r.p, x, 1, 0, r.a, r.in, true); edit("insert", r.p, x, 2, 0, r.a, r.in2, true); edit("append", r.p, y, 1, 0, r.a, r.ap, true); edit("append_back", 0, y, 1, 0, r.a, r.apb, true); edit("append_front", 0, y, 1, 0, r.a, r.apf, true);
		edit("erase", r.p % 6, none, 0, 1, r.a, r.er, false); edit("pop_back", 0, none, 0, 1, r.a, r.popb, false); edit("pop_front", 0, none, 0, 1, r.a, r.popf, false);
	}
};
void all() { both<Edits, 80>("edits"); }
#elif PART == 9
#include <sprout/numeric.hpp>
struct sub_ { constexpr int operator()(int x, int y) const { return x - y; } };
struct Nums {
	struct rec { A6 a, c; int v; int f[4]; A6 s[3]; };
	static constexpr A6 buf() { return A6{{9001, 9002, 9003, 9004, 9005, 9006}}; }
	static constexpr rec of(A6 const& a, A6 const& c, A6 const& w, int v) {
		return rec{a, c, v, {sprout::accumulate(a.begin(), a.end(), v), sprout::reduce(a.begin(), a.end(), v), sprout::inner_product(a.begin(), a.end(), c.begin(), v), sprout::accumulate(a.begin(), a.end(), v, sub_())}, {sprout::partial_sum(a.begin(), a.end(), w), sprout::adjacent_difference(a.begin(), a.end(), w), sprout::iota(w, v)}};
	}
	static constexpr rec at(unsigned i) { return of(arr6(i, 1, -9, 9), arr6(i, 20, -9, 9), buf(), pick(i, 40, -50, 50)); }
	static void emit(rec const& r) {
		for (int k = 0; k < 4; ++k) if (k != 2) { Ev e("fold"); e("b", k == 3 ? "sub" : "plus")("v", r.v)("a", vec(r.a))("r", r.f[k]); e.emit(); }
		{ Ev e("fold2"); e("b", "plus")("b2", "mul")("v", r.v)("a", vec(r.a))("c", vec(r.c))("r", r.f[2]); e.emit(); }
		static char const* N[] = {"inclusive", "adjacent", "iota"};
		for (int k = 0; k < 3; ++k) { Ev e(N[k]); e("f", "fixed")("b", k == 1 ? "sub" : "plus")("v", r.v)("a", vec(r.a))("w", vec(buf()))("l", 0)("h", 6)("r", vec(r.s[k]))("rl", 0)("rh", 6); e.emit(); }
	}
};
void all() { both<Nums, 80>("numeric"); }
#elif PART == 10
#include <sprout/rational.hpp>
#include <sprout/math/gcd.hpp>
#include <sprout/math/lcm.hpp>
typedef sprout::rational<long> Q; typedef sprout::rational<int> QI;
static vf::raw nd(Q const& q) { return vf::raw{"[" + vf::bigz(q.numerator()).s + "," + vf::bigz(q.denominator()).s + "]"}; }
struct Rats {
	struct rec { long n, d; Q a, b, r[4]; bool q[6]; long g, l; };
	static constexpr rec of(long n, long d, Q a, Q b) { return rec{n, d, a, b, {a + b, a - b, a * b, a / b}, {a < b, a > b, a <= b, a >= b, a == b, a != b}, sprout::gcd(n, d), sprout::lcm(n, d)}; }
	static constexpr rec of2(long n, long d, long x, long y) { return of(n, d, Q(n, d), Q(x, y)); }
	static constexpr long nz(long v) { return v ? v : 6; }
	static constexpr rec at(unsigned i) { return i % 2 ? of2(pick(i, 1, -60, 60), nz(pick(i, 2, -40, 40)), nz(pick(i, 3, -60, 60)), nz(pick(i, 4, -40, 40))) : of2(pick(i, 1, -30000, 30000), nz(pick(i, 2, -30000, 30000)), nz(pick(i, 3, -30000, 30000)), nz(pick(i, 4, -30000, 30000))); }
	static void emit(rec const& r) {
		static char const* F[] = {"+", "-", "*", "/"};
		{ Ev e("bmk"); e("n", vf::bigz(r.n))("d", vf::bigz(r.d))("r", nd(r.a)); e.emit(); }
		for (int k = 0; k < 4; ++k) { Ev e("bbin"); e("f", F[k])("a", nd(r.a))("b", nd(r.b))("r", nd(r.r[k]))("c", nd(r.r[k])); e.emit(); }
		{ Ev e("brel"); e("a", nd(r.a))("b", nd(r.b))("r", V(r.q, r.q + 6)); e.emit(); }
		{ Ev e("bgcd"); e("a", vf::bigz(r.n))("b", vf::bigz(r.d))("g", vf::bigz(r.g))("l", vf::bigz(r.l))("hasl", true); e.emit(); }
	}
};
void all() { both<Rats, 100>("rational"); }
#elif PART == 11
#include <sprout/string.hpp>
typedef sprout::basic_string<char, 8> S8; typedef sprout::basic_string<char, 3> S3;
template<typename S> static V codes(S const& s) { V v; for (std::size_t i = 0; i < s.size(); ++i) v.push_back((unsigned char)s[i]); return v; }
static int pos(std::size_t p) { return p == sprout::npos ? -1 : int(p); }
struct Strs {
	struct rec { S8 s; S3 t; int p, n; std::size_t f[12]; int c; bool r[6]; S8 sub; sprout::basic_string<char, 11> cat; };
	static constexpr rec of(S8 const& s, S3 const& t, int p, int n) {
		return rec{s, t, p, n, {s.find(t, p), s.rfind(t, p), s.find_first_of(t, p), s.find_last_of(t, p), s.find_first_not_of(t, p), s.find_last_not_of(t, p), s.find(t.c_str(), p), s.rfind(t.c_str(), p), s.find_first_of(t.c_str(), p), s.find_last_of(t.c_str(), p), s.find_first_not_of(t.c_str(), p), s.find_last_not_of(t.c_str(), p)},
			s.compare(t), {s == t, s != t, s < t, s > t, s <= t, s >= t}, s.substr(std::size_t(p) < s.size() ? p : 0, n), s + t};
	}
	static constexpr char ch(unsigned i, unsigned k, int len, int at) { return at < len ? char('a' + mix(i, k) % 3) : '\0'; }
	static constexpr S8 s8(unsigned i, int n) { return S8{{ch(i, 1, n, 0), ch(i, 2, n, 1), ch(i, 3, n, 2), ch(i, 4, n, 3), ch(i, 5, n, 4), ch(i, 6, n, 5), ch(i, 7, n, 6), ch(i, 8, n, 7), '\0'}, std::size_t(n)}; }
	static constexpr S3 s3(unsigned i, int n) { return S3{{ch(i, 11, n, 0), ch(i, 12, n, 1), ch(i, 13, n, 2), '\0'}, std::size_t(n)}; }
	static constexpr rec at(unsigned i) { return of(s8(i, pick(i, 30, 0, 8)), s3(i, pick(i, 31, 0, 3)), pick(i, 32, 0, 9), pick(i, 33, 0, 9)); }
	static void emit(rec const& r) {
		for (int k = 0; k < 2; ++k) { V v; for (int j = 0; j < 6; ++j) v.push_back(pos(r.f[6 * k + j])); Ev e("q"); e("s", codes(r.s))("t", codes(r.t))("p", r.p)("r", v); e.emit(); }
		{ Ev e("cmp"); e("s", codes(r.s))("t", codes(r.t))("p1", 0)("n1", 99)("p2", 0)("n2", 99)("r", r.c < 0 ? -1 : r.c > 0 ? 1 : 0); e.emit(); }
		{ Ev e("rel"); e("s", codes(r.s))("t", codes(r.t))("r", V(r.r, r.r + 6)); e.emit(); }
		{ Ev e("sub"); e("s", codes(r.s))("p", std::size_t(r.p) < r.s.size() ? r.p : 0)("n", r.n)("r", codes(r.sub))("th", false); e.emit(); }
		{ Ev e("cat"); e("s", codes(r.s))("t", codes(r.t))("r", codes(r.cat)); e.emit(); }
	}
};
void all() { both<Strs, 90>("string"); }
#elif PART == 12
#include <sprout/cstdlib.hpp>
#include <sprout/string.hpp>
#include <sprout/string/conversion.hpp>
template<typename S> static V codes(S const& s) { V v; for (std::size_t i = 0; i < s.size(); ++i) v.push_back(int(s[i])); return v; }
template<typename T> static std::string row(T v) { return std::string("[") + std::to_string(8 * sizeof(T)) + "," + (std::is_signed<T>::value ? "1," : "0,") + vf::bigz((__int128)v).s + ",-1]"; }
struct Texts {
	typedef sprout::basic_string<char, 12> S;
	struct rec { S s; int base; long l; unsigned long u; long long ll; int n; unsigned w; long q; decltype(sprout::to_string(1)) t; decltype(sprout::to_string(1u)) tu; decltype(sprout::to_string(1L)) tl; decltype(sprout::int_to_string<char, 16>(1u)) h; };
	static constexpr rec of(S const& s, int base, int n, unsigned w, long q) { return rec{s, base, sprout::strtol(s.c_str(), nullptr, base), sprout::strtoul(s.c_str(), nullptr, base), sprout::strtoll(s.c_str(), nullptr, base), n, w, q, sprout::to_string(n), sprout::to_string(w), sprout::to_string(q), sprout::int_to_string<char, 16>(w)}; }
	static constexpr char dig(unsigned i, unsigned k) { return mix(i, k) % 7 == 0 ? "zg.xZ9 "[mix(i, k + 50) % 7] : "0123456789abcdefF7"[mix(i, k + 50) % (i % 3 == 0 ? 10 : 18)]; }
	static constexpr S text(unsigned i) { return S{{" \t 0123"[mix(i, 1) % 7], "+-0 12"[mix(i, 2) % 6], i % 4 == 0 ? '0' : dig(i, 3), i % 8 == 0 ? 'x' : dig(i, 4), dig(i, 5), dig(i, 6), dig(i, 7), dig(i, 8), dig(i, 9), '\0', '\0', '\0', '\0'}, 9}; }
	static constexpr int base(unsigned k) { return k == 0 ? 0 : k == 1 ? 10 : k == 2 ? 16 : k == 3 ? 8 : k == 4 ? 2 : 36; }
	static constexpr rec at(unsigned i) { return of(text(i), base(mix(i, 20) % 6), i == 0 ? std::numeric_limits<int>::min() : i == 1 ? std::numeric_limits<int>::max() : int(mix(i, 21)) >> (mix(i, 22) % 32), mix(i, 23) >> (mix(i, 24) % 32), i == 2 ? std::numeric_limits<long>::min() : long(mix64(i, 25)) >> (mix(i, 26) % 64)); }
	static void emit(rec const& r) {
		{ Ev e("int"); e("base", r.base)("cs", codes(r.s))("r", vf::raw{"[" + row(r.l) + "," + row(r.u) + "," + row(r.ll) + "]"}); e.emit(); }
		{ Ev e("itos"); e("base", 10)("v", vf::bigz(r.n))("r", codes(r.t)); e.emit(); } { Ev e("itos"); e("base", 10)("v", vf::bigz(r.w))("r", codes(r.tu)); e.emit(); } { Ev e("itos"); e("base", 10)("v", vf::bigz(r.q))("r", codes(r.tl)); e.emit(); } { Ev e("itos"); e("base", 16)("v", vf::bigz(r.w))("r", codes(r.h)); e.emit(); }
	}
};
void all() { both<Texts, 100>("text"); }
#elif PART == 13
#include <sprout/random.hpp>
namespace R = sprout::random; typedef unsigned __int128 u128;
static std::string B(u128 v) { return vf::big_digits(v); }
// eight numbers by the value interface, a seed, and the engine compared with its copy moved on
template<typename E, unsigned long long SEEDMASK> struct Engine {
	typedef typename E::result_type U;
	struct rec { U seed, v[8]; bool same; };
	template<typename X> static constexpr rec run8(U s, E const& e, X const& a, X const& b, X const& c, X const& d, X const& f, X const& g, X const& h, X const& k) { return rec{s, {a.result(), b.result(), c.result(), d.result(), f.result(), g.result(), h.result(), k.result()}, e == E(s)}; }
	template<typename X> static constexpr rec run6(U s, E const& e, X const& a, X const& b, X const& c, X const& d, X const& f) { return run6b(s, e, a, b, c, d, f, f()); }
	template<typename X> static constexpr rec run6b(U s, E const& e, X const& a, X const& b, X const& c, X const& d, X const& f, X const& g) { return run7(s, e, a, b, c, d, f, g, g()); }
	template<typename X> static constexpr rec run7(U s, E const& e, X const& a, X const& b, X const& c, X const& d, X const& f, X const& g, X const& h) { return run8(s, e, a, b, c, d, f, g, h, h()); }
	template<typename X> static constexpr rec run5(U s, E const& e, X const& a, X const& b, X const& c, X const& d) { return run6(s, e, a, b, c, d, d()); }
	template<typename X> static constexpr rec run4(U s, E const& e, X const& a, X const& b, X const& c) { return run5(s, e, a, b, c, c()); }
	template<typename X> static constexpr rec run3(U s, E const& e, X const& a, X const& b) { return run4(s, e, a, b, b()); }
	template<typename X> static constexpr rec run2(U s, E const& e, X const& a) { return run3(s, e, a, a()); }
	static constexpr rec of(U s, E const& e) { return run2(s, e, e()); }
	static constexpr rec at(unsigned i) { return of(U(mix64(i, 1) & SEEDMASK), E(U(mix64(i, 1) & SEEDMASK))); }
	static std::string& g() { static std::string s; return s; }
	static void emit(rec const& r) {
		vf::begin_history(); E const c; { Ev e("cfg"); e("g", vf::raw{g()})("lo", vf::big(c.min()))("hi", vf::big(c.max())); e.emit(); }
		{ Ev e("new"); e("i", 0)("x", vf::bigz(r.seed)); e.emit(); } { Ev e("new"); e("i", 1)("x", vf::bigz(r.seed)); e.emit(); } { Ev e("eq"); e("i", 0)("j", 1)("eq", r.same)("ne", !r.same); e.emit(); }
		std::string w; for (int k = 0; k < 8; ++k) w += (k ? "," : "") + B(r.v[k]); Ev e("run"); e("i", 0)("j", 0)("n", 8)("r", vf::raw{"[" + w + "]"}); e.emit(); vf::end_history();
	}
};
template<typename U, U a, U c, U m, unsigned long long S> void lcg(int) {
	typedef Engine<R::linear_congruential_engine<U, a, c, m>, S> E; u128 mm = m == 0 ? (u128)std::numeric_limits<U>::max() + 1 : (u128)m;
	E::g() = "{\"k\":\"lcg\",\"a\":" + B(a) + ",\"c\":" + B(c) + ",\"m\":" + B(mm) + ",\"tb\":" + std::to_string(8 * sizeof(U)) + (std::is_signed<U>::value ? ",\"sg\":true" : ",\"sg\":false") + "}"; both<E, 12>("lcg");
}
void all() {
	lcg<std::uint32_t, 16807, 0, 2147483647, 0xffffffffULL>(0); lcg<std::uint32_t, 48271, 0, 2147483647, 0xffffffffULL>(0); lcg<std::uint64_t, 6364136223846793005ULL, 1442695040888963407ULL, 0, ~0ULL>(0); lcg<std::uint32_t, 1103515245, 12345, 0, 0xffffffffULL>(0); lcg<std::uint64_t, 0x5DEECE66DULL, 0xB, 1ULL << 48, ~0ULL>(0);
	typedef R::mersenne_twister_engine<std::uint32_t, 32, 7, 5, 31, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253> M; typedef Engine<M, 0xffffffffULL> EM;
	EM::g() = "{\"k\":\"mt\",\"w\":32,\"n\":7,\"m\":5,\"r\":31,\"a\":" + B(0x9908b0df) + ",\"u\":11,\"d\":" + B(0xffffffff) + ",\"s\":7,\"b\":" + B(0x9d2c5680) + ",\"t\":15,\"c\":" + B(0xefc60000) + ",\"l\":18,\"f\":" + B(1812433253) + "}"; both<EM, 10>("mersenne twister");
	typedef R::inversive_congruential_engine<std::uint32_t, 9102, 2147483647 - 36884165, 2147483647> I; typedef Engine<I, 0x7fffffffULL> EI; EI::g() = "{\"k\":\"inv\",\"a\":" + B(9102) + ",\"c\":" + B(2147483647 - 36884165) + ",\"m\":" + B(2147483647) + ",\"tb\":32,\"sg\":false}"; both<EI, 10>("inversive");
	typedef R::linear_feedback_shift_engine<std::uint32_t, 32, 31, 13, 12> L; typedef Engine<L, 0xfffffff0ULL> EL; EL::g() = "{\"k\":\"lfsr\",\"w\":32,\"n\":31,\"q\":13,\"s\":12}"; both<EL, 10>("feedback shift");
}
#elif PART == 14
#include <sprout/algorithm.hpp>
#include <sprout/random.hpp>
static void perm(char const* op, A6 const& a, A6 const& r, int x) { Ev e(op); e("c", "lt")("w", vec(a))("l", 0)("h", 6)("r", vec(r))("rl", 0)("rh", 6); if (x >= 0) e("x", x == 1); e.emit(); }
struct Perms {
	struct rec { A6 a; sprout::pair<A6, bool> n, p; A6 sh; };
	static constexpr rec of(A6 const& a, sprout::random::minstd_rand0 const& g) { return rec{a, sprout::next_permutation(a), sprout::prev_permutation(a), sprout::shuffle(a, g)}; }
	static constexpr rec at(unsigned i) { return of(i % 5 == 0 ? sorted6(i, 1) : arr6(i, 1, 0, 4), sprout::random::minstd_rand0(mix(i, 30))); }
	static void emit(rec const& r) { perm("next_permutation", r.a, r.n.first, r.n.second); perm("prev_permutation", r.a, r.p.first, r.p.second); perm("shuffle", r.a, r.sh, -1); }
};
// where the specification leaves the outcome open, constant evaluation and run time still give the same one
template<typename F> struct Same { static void run(int n) { (void)n; } };
template<typename F, int N> void same(char const* name) {
	typedef Table<F, typename sprout::make_index_tuple<N>::type> T; vf::tag() = name;
	for (int i = 0; i < N; ++i) { volatile unsigned j = unsigned(i); auto const& c = T::v[i]; auto const r = F::at(j); Ev e("same"); e("x", F::text(c))("y", F::text(r)); e.emit(); }
}
struct key3 { constexpr bool operator()(int x, int y) const { return x / 3 < y / 3; } };
struct Loose {
	struct rec { A6 a[6]; double d[4]; };
	static constexpr rec of(A6 const& a, sprout::random::minstd_rand const& g, int m) {
		return rec{{sprout::shuffle(a, g), sprout::sort(a, key3()), sprout::partial_sort(a, a.begin() + m, key3()), sprout::nth_element(a, a.begin() + m, key3()), sprout::make_heap(a, key3()), sprout::random_swap(a, g)},
			{sprout::random::uniform_real_distribution<double>(0, 10)(g).result(), double(sprout::random::bernoulli_distribution<>(0.3)(g).result()), double(sprout::random::uniform_int_distribution<int>(-5, 99)(g).result()), double(sprout::random::uniform_smallint<int>(-5, 99)(g).result())}};
	}
	static constexpr rec at(unsigned i) { return of(arr6(i, 1, 0, 9), sprout::random::minstd_rand(mix(i, 30)), pick(i, 31, 0, 5)); }
	static vf::raw text(rec const& r) { std::string s = "["; for (int k = 0; k < 6; ++k) s += vf::js(vec(r.a[k])) + ","; for (int k = 0; k < 4; ++k) { unsigned long long u; std::memcpy(&u, &r.d[k], 8); s += vf::limbs(u).s + (k < 3 ? "," : "]"); } return vf::raw{s}; }
};
void all() { both<Perms, 60>("permutation"); same<Loose, 80>("agreement"); }
#elif PART == 15
#include <sprout/checksum.hpp>
#include <sprout/string.hpp>
struct Sums {
	typedef sprout::basic_string<char, 12> S;
	struct rec { S s; sprout::md5::value_type md; std::uint8_t a, x; std::uint16_t b; std::uint32_t c; };
	static constexpr rec of(S const& s) { return rec{s, sprout::make_md5(s), sprout::make_sum8(s), sprout::make_xor8(s), sprout::make_sum16(s), sprout::make_sum32(s)}; }
	static constexpr char ch(unsigned i, unsigned k, int n) { return int(k) < n ? char(mix(i, k) % 254 + 1) : '\0'; }
	static constexpr S text(unsigned i, int n) { return S{{ch(i, 0, n), ch(i, 1, n), ch(i, 2, n), ch(i, 3, n), ch(i, 4, n), ch(i, 5, n), ch(i, 6, n), ch(i, 7, n), ch(i, 8, n), ch(i, 9, n), ch(i, 10, n), ch(i, 11, n), '\0'}, std::size_t(n)}; }
	static constexpr rec at(unsigned i) { return of(text(i, int(i * 3 % 13))); }
	static void emit(rec const& r) {
		V b; for (std::size_t k = 0; k < r.s.size(); ++k) b.push_back((unsigned char)r.s[k]); char q[100]; std::snprintf(q, sizeof q, "{\"s8\":%u,\"s16\":%u,\"s32\":[%u,%u],\"x\":%u}", unsigned(r.a), unsigned(r.b), r.c >> 16, r.c & 65535, unsigned(r.x));
		vf::begin_history(); Ev e("once"); e("b", b)("md", vf::raw{"[" + vf::js(V(r.md.begin(), r.md.end())) + "]"})("sh", V())("r", vf::raw{q}); e.emit(); vf::end_history();
	}
};
void all() { both<Sums, 5>("checksum"); }
#endif
int main(int ac, char** av) { vf::init(ac, av); all(); return vf::done(); }
