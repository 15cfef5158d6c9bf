// C28: character classes and case mapping.
#include "vf.hpp"
#include <sprout/cctype.hpp>
#include <sprout/cwctype.hpp>
#include <sprout/array.hpp>
#include <sprout/string.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/algorithm/string.hpp>
#include <sprout/range/algorithm/string.hpp>
#include <sprout/detail/char_conversion.hpp>
#include <algorithm>
using vf::Ev; typedef std::vector<int> V; typedef std::vector<std::string> S;
#define CLASSES(X) X(alnum) X(alpha) X(blank) X(cntrl) X(digit) X(graph) X(lower) X(print) X(punct) X(space) X(upper) X(xdigit)
namespace ct = sprout::ctypes;
template<typename T> long code(T c) { return long(c); }
template<typename T> void one(T c) {
	S m, f, v, k, w; 
#define X(N) if (sprout::is##N(c)) m.push_back(#N); if (ct::is_##N<T>()(c)) f.push_back(#N); if (ct::is_##N<>()(c)) v.push_back(#N); if (sprout::isclassified(ct::N, c)) k.push_back(#N); if (ct::is_classified<T>(ct::N)(c) && ct::is_classified<>(ct::N)(c)) w.push_back(#N);
	CLASSES(X)
#undef X
	V d; for (int b = 2; b <= 36; ++b) d.push_back(sprout::detail::char_to_int<int>(c, b));
	V l = {int(sprout::tolower(c)), int(ct::to_lower<T>()(c)), int(ct::to_lower<>()(c))}, u = {int(sprout::toupper(c)), int(ct::to_upper<T>()(c)), int(ct::to_upper<>()(c))};
	Ev e("char"); e("c", code(c))("m", m)("f", f)("v", v)("k", k)("w", w)("lo", l)("up", u)("d", d)("d10", sprout::detail::char_to_int<int>(c)); e.emit();
	// unions of classes
#define U(A, B) { Ev x("either"); x("c", code(c))("x", #A)("y", #B)("r", bool(sprout::isclassified(ct::A | ct::B, c))); x.emit(); }
	U(alpha, digit) U(upper, punct) U(space, xdigit) U(blank, lower) U(cntrl, digit) U(graph, space)
}
void wide(wchar_t c) {
	S m;
#define X(N) if (sprout::isw##N(c)) m.push_back(#N);
	CLASSES(X)
#undef X
	S k;
#define X(N) if (sprout::iswclassified(ct::N, c)) k.push_back(#N);
	CLASSES(X)
#undef X
	Ev e("char"); e("c", code(c))("m", m)("f", m)("v", m)("k", k)("w", k); V l(3, sprout::towlower(c)), u(3, sprout::towupper(c)); e("lo", l)("up", u); e.emit();
}
template<typename T> void nocase(T x, T y) { Ev e("nocase"); e("x", code(x))("y", code(y))("r", bool(ct::nocase_equal_to<T>()(x, y)))("rv", bool(ct::nocase_equal_to<>()(x, y)))("n", bool(ct::nocase_not_equal_to<T>()(x, y)))("nv", bool(ct::nocase_not_equal_to<>()(x, y))); e.emit(); }
template<typename C> V out(C const& c) { V r; for (auto it = sprout::begin(c); it != sprout::end(c); ++it) r.push_back(int(*it)); return r; }
template<typename C> void text(V const& a, C const& c) {
	namespace al = sprout::algorithm;
#define TX(K, ...) { Ev e("text"); e("a", a)("k", K)("r", out(__VA_ARGS__)); e.emit(); }
	TX("lo", al::to_lower(c)) TX("up", al::to_upper(c)) TX("lo", al::fixed::to_lower(c)) TX("up", al::fixed::to_upper(c)) TX("lo", al::fit::to_lower(c)) TX("up", al::fit::to_upper(c))
	TX("lo", al::to_lower_copy(sprout::begin(c), sprout::end(c), c)) TX("up", al::to_upper_copy(sprout::begin(c), sprout::end(c), c)) TX("lo", al::fit::to_lower_copy(sprout::begin(c), sprout::end(c), c)) TX("up", al::fit::to_upper_copy(sprout::begin(c), sprout::end(c), c))
	TX("lo", sprout::range::algorithm::to_lower_copy(c, c)) TX("up", sprout::range::algorithm::to_upper_copy(c, c)) TX("lo", sprout::range::algorithm::fit::to_lower_copy(c, c)) TX("up", sprout::range::algorithm::fit::to_upper_copy(c, c))
}
int main(int ac, char** av) {
	vf::init(ac, av);
	for (int c = -128; c < 128; ++c) one(char(c));
	for (int c = -1; c < (vf::thorough() ? 70000 : 600); ++c) { one(wchar_t(c)); wide(wchar_t(c)); if (c >= 0) { one(char32_t(c)); if (c < 65536) one(char16_t(c)); } }
	for (int c : {0x3041, 0xff21, 0xff41, 0xffff, 0x100 + 'a', 0x1000 + 'A', 0x4100}) { one(wchar_t(c)); wide(wchar_t(c)); one(char16_t(c)); one(char32_t(c)); }
	for (int c : {0x10041, 0x100061, 0x7fffff41}) { one(wchar_t(c)); wide(wchar_t(c)); one(char32_t(c)); }
	for (int x = -128; x < 128; ++x) { for (int k = 0; k < (vf::thorough() ? 40 : 8); ++k) { int y = vf::rnd(-128, 127); nocase(char(x), char(y)); nocase(wchar_t(x + 128), wchar_t(y + 128)); } nocase(char(x), char(x)); nocase(char(x), char(x ^ 32)); nocase(wchar_t(x), wchar_t(x ^ 32)); nocase(char16_t(x & 255), char16_t((x & 255) ^ 32)); }
	for (int q = 0; q < (vf::thorough() ? 600 : 60); ++q) {
		V a; sprout::array<char, 6> c; sprout::array<wchar_t, 5> w; V b; for (int i = 0; i < 6; ++i) { c[i] = char(vf::rnd(q % 3 ? 60 : -128, 127)); a.push_back(c[i]); } for (int i = 0; i < 5; ++i) { w[i] = wchar_t(vf::rnd(60, q % 2 ? 127 : 400)); b.push_back(int(w[i])); }
		text(a, c); text(b, w); V t(a.begin() + 1, a.begin() + 4); text(t, sprout::sub_copy(c, 1, 4));
		sprout::string<8> s(c.begin(), 6); text(out(s), s);
	}
	for (int v = 0; v < 36; ++v) { Ev e("digit"); e("v", v)("c", V{int(sprout::detail::int_to_char<char>(v, 36)), int(sprout::detail::int_to_char<wchar_t>(v, 36)), int(sprout::detail::int_to_char<char>(v, v < 2 ? 2 : v + 1 > 36 ? 36 : v + 1)), v < 10 ? int(sprout::detail::int_to_char<char>(v)) : -1}); e.emit(); }
	return vf::done();
}
