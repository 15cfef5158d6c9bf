// C27: conversion between numbers and text.
#include "vf.hpp"
#include <sprout/cstdlib.hpp>
#include <sprout/cinttypes.hpp>
#include <sprout/string.hpp>
#include <sprout/string/conversion.hpp>
#include <sprout/utility/string_view.hpp>
#include <sprout/utility/string_view/conversion.hpp>
#include <cmath>
#include <limits>
#include <climits>
#ifndef PART
#define PART 1
#endif
using vf::Ev;
#if SPROUT_USE_BUILTIN_CMATH_FUNCTION
static const bool BI = true;
#else
static const bool BI = false;
#endif
template<typename S> std::vector<int> codes(S const& s) { std::vector<int> v; for (std::size_t i = 0; i < s.size(); ++i) v.push_back(int(s[i])); return v; }
template<typename T> vf::raw fp(T x) {
	char b[400];
	int s = std::signbit(x) ? -1 : 1;
	if (x != x) { std::snprintf(b, sizeof b, "{\"k\":\"q\",\"s\":%d,\"m\":[],\"e\":0}", s); return vf::raw{b}; }
	if (std::isinf(x)) { std::snprintf(b, sizeof b, "{\"k\":\"i\",\"s\":%d,\"m\":[],\"e\":0}", s); return vf::raw{b}; }
	int e = 0; long double f = std::frexp((long double)(x < 0 ? -x : x), &e); unsigned long long m = (unsigned long long)std::ldexp(f, 64); e -= 64;
	if (!m) e = 0;
	while (m && !(m & 1)) { m >>= 1; ++e; }
	std::string r = vf::big(m).s; std::snprintf(b, sizeof b, "{\"k\":\"n\",\"s\":%d,\"m\":%s,\"e\":%d}", s, r.c_str(), e); return vf::raw{b};
}
template<typename T> struct fmt; template<> struct fmt<float> { static const char* n() { return "f"; } }; template<> struct fmt<double> { static const char* n() { return "d"; } }; template<> struct fmt<long double> { static const char* n() { return "l"; } };

struct Res {
	std::string s;
	template<typename T> void add(T v, long used = -1) { char b[64]; std::snprintf(b, sizeof b, "%s[%d,%d,", s.empty() ? "" : ",", int(sizeof(T) * CHAR_BIT), std::numeric_limits<T>::is_signed ? 1 : 0); s += b; s += vf::bigz((__int128)v).s; std::snprintf(b, sizeof b, ",%ld]", used); s += b; }
	vf::raw done() const { return vf::raw{"[" + s + "]"}; }
};
#define E2(F) { char* p = nullptr; auto v = F; r.add(v, p - s); }
static void integers(std::string const& t, int base, bool wide) {
	Res r; char const* s = t.c_str();
	r.add(sprout::strtol(s, nullptr, base)); r.add(sprout::strtoul(s, nullptr, base)); r.add(sprout::strtoll(s, base)); r.add(sprout::strtoull(s, base));
	r.add(sprout::strtoimax(s, nullptr, base)); r.add(sprout::strtoumax(s, base));
	E2(sprout::strtol(s, &p, base)) E2(sprout::strtoul(s, &p, base)) E2(sprout::strtoll(s, &p, base)) E2(sprout::strtoull(s, &p, base)) E2(sprout::strtoimax(s, &p, base)) E2(sprout::strtoumax(s, &p, base))
	r.add(sprout::str_to_int<int>(s, base)); r.add(sprout::str_to_int<unsigned>(s, nullptr, base)); r.add(sprout::str_to_int<short>(s, base)); r.add(sprout::str_to_int<unsigned short>(s, base)); r.add(sprout::str_to_int<signed char>(s, base)); r.add(sprout::str_to_int<unsigned char>(s, base));
	E2(sprout::str_to_int<int>(s, &p, base)) E2(sprout::str_to_int<short>(s, &p, base)) E2(sprout::str_to_int<signed char>(s, &p, base))
	{ auto str = sprout::basic_string<char, 80>(s, t.size()); std::size_t n;
	  r.add(sprout::stoi(str, nullptr, base)); r.add(sprout::stol(str, nullptr, base)); r.add(sprout::stoul(str, base)); r.add(sprout::stoll(str, base)); r.add(sprout::stoull(str, base)); r.add(sprout::stoi(str, base)); r.add(sprout::string_to_int<short>(str, base));
	  { auto v = sprout::stoi(str, &n, base); r.add(v, long(n)); } { auto v = sprout::stol(str, &n, base); r.add(v, long(n)); } { auto v = sprout::stoul(str, &n, base); r.add(v, long(n)); } { auto v = sprout::stoll(str, &n, base); r.add(v, long(n)); } { auto v = sprout::stoull(str, &n, base); r.add(v, long(n)); }
	  { auto v = sprout::string_to_int<short>(str, &n, base); r.add(v, long(n)); } if (base == 0) { r.add(sprout::from_string<int>(str)); auto v = sprout::from_string<long>(str, &n); r.add(v, long(n)); } }
	{ auto str = sprout::string_view(s, t.size()); std::size_t n;
	  r.add(sprout::stoi(str, nullptr, base)); r.add(sprout::stol(str, nullptr, base)); r.add(sprout::stoul(str, base)); r.add(sprout::stoll(str, base)); r.add(sprout::stoull(str, base)); r.add(sprout::stoi(str, base));
	  { auto v = sprout::stoi(str, &n, base); r.add(v, long(n)); } { auto v = sprout::stol(str, &n, base); r.add(v, long(n)); } { auto v = sprout::stoul(str, &n, base); r.add(v, long(n)); } { auto v = sprout::stoll(str, &n, base); r.add(v, long(n)); } { auto v = sprout::stoull(str, &n, base); r.add(v, long(n)); } }
	if (wide) { std::wstring w(t.begin(), t.end()); r.add(sprout::strtol(w.c_str(), nullptr, base)); r.add(sprout::strtoul(w.c_str(), base)); auto ws = sprout::basic_string<wchar_t, 80>(w.c_str(), w.size()); r.add(sprout::stoi(ws, base)); r.add(sprout::stoull(ws, base)); }
	if (base == 10) { r.add(sprout::atoi(s)); r.add(sprout::atol(s)); r.add(sprout::atoll(s)); r.add(sprout::ascii_to_int<short>(s)); }
	Ev e("int"); e("base", base)("cs", codes(t))("r", r.done()); e.emit();
}
static std::string digits(unsigned __int128 v, int base) { std::string s; if (!v) s = "0"; while (v) { int d = int(v % base); s.insert(s.begin(), char(d < 10 ? '0' + d : 'a' + d - 10)); v /= base; } return s; }
template<int Base, typename T> void write1(T v) {
	Ev e("itos"); e("base", Base)("v", vf::bigz((__int128)v))("r", codes(sprout::int_to_string<char, Base>(v))); e.emit();
	{ auto w = sprout::int_to_string<wchar_t, Base>(v); Ev f("itos"); f("base", Base)("v", vf::bigz((__int128)v))("r", codes(w)); f.emit(); }
}
template<typename T> void write(T v) {
	write1<10>(v); write1<2>(v); write1<3>(v); write1<8>(v); write1<16>(v);
	if (vf::thorough()) { write1<4>(v); write1<5>(v); write1<6>(v); write1<7>(v); write1<9>(v); write1<11>(v); write1<12>(v); write1<13>(v); write1<14>(v); write1<15>(v); }
	{ Ev e("itos"); e("base", 10)("v", vf::bigz((__int128)v))("r", codes(sprout::to_string(v))); e.emit(); }
	{ Ev e("itos"); e("base", 10)("v", vf::bigz((__int128)v))("r", codes(sprout::to_u16string(v))); e.emit(); }
	{ Ev e("itos"); e("base", 10)("v", vf::bigz((__int128)v))("r", codes(sprout::to_string_of<char32_t>(v))); e.emit(); }
}
template<typename T> void writes() {
	T lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
	for (int k = 0; k < 5; ++k) { write(T(lo + k)); write(T(hi - k)); write(T(k)); write(T(0 - k)); }
	for (T q = hi; q; q = T(q / 2)) { write(q); write(T(0 - q)); write(T(q + 1)); }
	for (T q = hi; q; q = T(q / 10)) { write(q); write(T(0 - q)); }
	for (T q = 1; q <= hi / 10; q = T(q * 10)) { write(q); write(T(q - 1)); write(T(0 - q)); }
	for (int k = 0, n = vf::thorough() ? 600 : 40; k < n; ++k) write(T(vf::rnd64() >> vf::rnd(0, int(sizeof(T) * 8 - 1))));
	if (sizeof(T) == 1) for (int k = -128; k < 256; ++k) write(T(k));
}
#define DEC(T, V, N) { Ev e("dec"); e("t", fmt<T>::n())("bi", BI)("cs", codes(t))("r", fp(V))("n", N); e.emit(); }
static void decimal(std::string const& t) {
	char const* s = t.c_str(); char* p; std::size_t n; (void)n;
	DEC(float, sprout::strtof(s, nullptr), -1) DEC(double, sprout::strtod(s, nullptr), -1) DEC(long double, sprout::strtold(s, nullptr), -1)
	{ float v = sprout::strtof(s, &p); DEC(float, v, int(p - s)) } { double v = sprout::strtod(s, &p); DEC(double, v, int(p - s)) } { long double v = sprout::strtold(s, &p); DEC(long double, v, int(p - s)) }
	DEC(double, sprout::atof(s), -1) DEC(float, sprout::str_to_float<float>(s), -1) DEC(long double, sprout::str_to_float<long double>(s), -1)
	auto str = sprout::basic_string<char, 200>(s, t.size());
	DEC(float, sprout::stof(str), -1) DEC(double, sprout::stod(str), -1) DEC(long double, sprout::stold(str), -1)
	{ float v = sprout::stof(str, &n); DEC(float, v, int(n)) } { double v = sprout::stod(str, &n); DEC(double, v, int(n)) } { long double v = sprout::stold(str, &n); DEC(long double, v, int(n)) }
	DEC(double, sprout::from_string<double>(str), -1)
	auto sv = sprout::string_view(s, t.size());
	DEC(float, sprout::stof(sv), -1) DEC(double, sprout::stod(sv), -1) { double v = sprout::stod(sv, &n); DEC(double, v, int(n)) }
	std::wstring w(t.begin(), t.end()); DEC(double, sprout::strtod(w.c_str(), nullptr), -1) DEC(float, sprout::stof(sprout::basic_string<wchar_t, 200>(w.c_str(), w.size())), -1)
}
// the fixed text of long double has room for thousands of digits: minutes to compile, so only its exponent form is written
template<typename T> typename std::enable_if<(sizeof(T) > 8)>::type fixed(T) {}
template<typename T> typename std::enable_if<(sizeof(T) <= 8)>::type fixed(T x) {
	{ Ev e("fix"); e("t", fmt<T>::n())("bi", BI)("x", fp(x))("r", codes(sprout::to_string(x))); e.emit(); }
	if (vf::rnd(0, 7) == 0) {
		{ Ev e("fix"); e("t", fmt<T>::n())("bi", BI)("x", fp(x))("r", codes(sprout::float_to_string<wchar_t>(x))); e.emit(); }
		{ Ev e("fix"); e("t", fmt<T>::n())("bi", BI)("x", fp(x))("r", codes(sprout::to_u32string(x))); e.emit(); }
	}
}
template<typename T> void show(T x) {
	if (!BI && x == 0 && std::signbit(x)) return;
	fixed(x);
	{ Ev e("exp"); e("t", fmt<T>::n())("bi", BI)("x", fp(x))("r", codes(sprout::float_to_string_exp<char>(x))); e.emit(); }
	if (vf::rnd(0, 7) == 0) {
		{ Ev e("exp"); e("t", fmt<T>::n())("bi", BI)("x", fp(x))("r", codes(sprout::float_to_string_exp<char16_t>(x))); e.emit(); }
	}
}
template<typename T> void shows(bool big) {
	typedef std::numeric_limits<T> L;
	T special[] = {T(0), T(-0.0), L::infinity(), -L::infinity(), L::quiet_NaN(), L::epsilon(), T(2) / L::epsilon(), T(2) / L::epsilon() - 1, T(1) / L::epsilon(), T(1) / L::epsilon() - 1, T(1) / L::epsilon() - T(0.5)};
	for (T x : special) { show(x); show(-x); }
	if (big) { show(L::max()); show(L::lowest()); show(L::min()); show(L::denorm_min()); }
	for (int k = 0; k < 130; ++k) { show(T(k)); show(T(-k)); show(T(k) / 8); show(T(k) / 64 - 1); }
	T p10 = 1; for (int k = 0; k < 16; ++k, p10 *= 10) for (int d = 1; d < 10; d += 2) { show(p10 * d); show(p10 * d - 1); show(1 / p10 * d); show(p10 - T(0.5)); show(p10 * d - T(1) / 1048576); show(std::nextafter(p10, T(0))); show(std::nextafter(1 / p10, T(0))); show(-std::nextafter(1 / p10, T(1))); show(p10 * d + 7); }
	for (int k = 0; k < 40; ++k) { T v = T(vf::rnd(0, 99999)) + T(k) / 16; show(v + T(0.9999994)); show(v + T(0.9999995)); show(v + T(0.9999996)); show(v + T(0.0000005)); show(v + T(0.00000049)); }
	int n = vf::thorough() ? 6000 : 400, lim = big ? L::max_exponent - 2 : 400;
	for (int k = 0; k < n; ++k) { T v = std::ldexp(T(vf::rnd64() >> 1), vf::rnd(-90, 20)); show(v); show(-v); }
	for (int k = 0; k < n; ++k) show(T(vf::rnd(-2000000, 2000000)) / T(vf::rnd(0, 1) ? 1000000 : 1000));
	for (int k = 0; k < n / 8; ++k) show(std::ldexp(T(vf::rnd64() >> 1), vf::rnd(-lim, lim - 64)));
}
int main(int ac, char** av) {
	vf::init(ac, av);
#if PART == 1
	const char* al = " +-017xaz"; int bases[] = {0, 2, 8, 10, 16, 36};
	std::vector<std::string> layer(1, ""), all(1, "");
	for (int len = 1; len <= (vf::thorough() ? 4 : 3); ++len) { std::vector<std::string> nx; for (auto& s : layer) for (const char* q = al; *q; ++q) nx.push_back(s + *q); layer = nx; all.insert(all.end(), nx.begin(), nx.end()); }
	for (auto& s : all) for (int b : bases) integers(s, b, s.size() < 3);
	// the limits of the types, written in every base
	for (int base = 2; base <= 36; base += vf::thorough() ? 1 : (base < 10 ? 2 : base == 10 ? 6 : 10)) for (int bits : {7, 8, 15, 16, 31, 32, 63, 64}) for (int d = -2; d <= 2; ++d) {
		std::string t = digits(((unsigned __int128)1 << bits) + d, base);
		if (base == 2 && t.size() > 60 && d > 0) t = "000" + t;
		integers(t, base, d == 0); integers("-" + t, base, d == 0); integers(" \t+" + t + "~", base, false); integers("-0" + t + "!", base, false);
		std::string up = t; for (char& ch : up) if (ch >= 'a') ch = char(ch - 32); integers(up, base, false);
		if (base == 16) { integers("0x" + t, 0, false); integers("-0X" + up, 16, true); } if (base == 8) integers("0" + t, 0, false); if (base == 10) { integers(t, 0, false); integers("-" + t, 0, false); }
	}
	integers("\v\f\r\n 12 3", 10, true); integers("99999999999999999999999999999999999999999", 10, true); integers("-99999999999999999999999999999999999999999", 10, true); integers("zzzzzzzzzzzzzzzzzzzzzzzzzzzz", 36, true);
	for (int k = 0, n = vf::thorough() ? 3000 : 200; k < n; ++k) { int base = vf::rnd(2, 36); std::string t = digits(vf::rnd64() >> vf::rnd(0, 63), base); integers((vf::rnd(0, 1) ? "-" : "") + t, base, true); }
#elif PART == 2
	writes<signed char>(); writes<unsigned char>(); writes<short>(); writes<unsigned short>(); writes<int>(); writes<unsigned>(); writes<long>(); writes<unsigned long>(); writes<long long>(); writes<unsigned long long>();
#elif PART == 3
	const char* al = "+-.05e9"; 
	std::vector<std::string> layer(1, ""), all(1, "");
	for (int len = 1; len <= (vf::thorough() ? 5 : 3); ++len) { std::vector<std::string> nx; for (auto& s : layer) for (const char* q = al; *q; ++q) nx.push_back(s + *q); layer = nx; all.insert(all.end(), nx.begin(), nx.end()); }
	for (auto& s : all) decimal(s);
	const char* more[] = {" \t\n-12.5e1 ", "1e+", "1e-", "1e", "1.5E+1x", "0.1e-1", "-.5e-2", "12.e3", "1e400", "-1e400", "1e-400", "-1e-400", "0e400", "0e-400", "1e5000", "-1e6000", "1e-6000", "1e99999999999999999999", "1e-99999999999999999999", "1e50", "-1e50", "1e-50", "123456789012345678901234567890", "0.000000000000000000000000012345",
		"9007199254740993", "16777217", "18446744073709551615", "3.14159265358979323846", "2.2250738585072014e-308", "1.7976931348623157e308", "1.8e308", "3.4e38", "3.5e38", "1.1754944e-38", "00001.50000", "1.0000000000000000000000000000001", "1e0", "1e00005", "1e+007", "1.5.5", "1e5.5", "--1", "+-1", "1-", "1+5", "5e1e1"};
	for (auto s : more) decimal(s);
	for (int k = 0, n = vf::thorough() ? 4000 : 250; k < n; ++k) {
		std::string t = vf::rnd(0, 2) ? "" : "-"; int a = vf::rnd(0, 12), b = vf::rnd(0, 9);
		for (int i = 0; i < a; ++i) t += char('0' + vf::rnd(0, 9));
		if (vf::rnd(0, 2)) t += '.';
		for (int i = 0; i < b; ++i) t += char('0' + vf::rnd(0, 9));
		if (vf::rnd(0, 1)) { char q[20]; int w = vf::rnd(0, 3); int r = w == 0 ? 10 : w == 1 ? 36 : w == 2 ? 300 : 330; std::snprintf(q, sizeof q, vf::rnd(0, 1) ? "e%d" : "E%+d", vf::rnd(-r, r)); t += q; }
		decimal(t);
	}
#elif PART == 4
	shows<float>(true);
#elif PART == 5
	shows<double>(true);
#elif PART == 6
	shows<long double>(false);
#endif
	return vf::done();
}
