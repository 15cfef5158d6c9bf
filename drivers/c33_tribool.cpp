// C33: three-valued logic.
#include "vf.hpp"
#include <sprout/logic/tribool.hpp>
#include <sprout/logic/tribool/hash.hpp>
#include <sstream>
using vf::Ev; using sprout::logic::tribool;
SPROUT_TRIBOOL_THIRD_STATE(maybe)
static const char* nm(tribool t) { return t.value == tribool::true_value ? "T" : t.value == tribool::false_value ? "F" : t.value == tribool::indeterminate_value ? "I" : "?"; }
static tribool mk(int i) { return i == 0 ? tribool(false) : i == 1 ? tribool(true) : tribool(sprout::indeterminate); }
#define BIN(O, FORM, A, B, ...) { Ev e("bin"); e("f", #O)("form", FORM)("a", nm(A))("b", nm(B))("r", nm(__VA_ARGS__)); e.emit(); }
#define OPS(FORM, X, Y, A, B) BIN(&&, FORM, A, B, (X) && (Y)) BIN(||, FORM, A, B, (X) || (Y)) BIN(==, FORM, A, B, (X) == (Y)) BIN(!=, FORM, A, B, (X) != (Y))
static constexpr tribool KI = tribool(sprout::indeterminate);
template<int A, int B> void stat() {	// the same table worked out by the compiler
	constexpr tribool a = A == 2 ? tribool(sprout::indeterminate) : tribool(A == 1), b = B == 2 ? tribool(sprout::indeterminate) : tribool(B == 1);
	constexpr tribool r1 = a && b, r2 = a || b, r3 = a == b, r4 = a != b, r5 = !a;
	BIN(&&, "const", a, b, r1) BIN(||, "const", a, b, r2) BIN(==, "const", a, b, r3) BIN(!=, "const", a, b, r4)
	Ev e("un"); e("a", nm(a))("not", nm(r5))("c", bool(a))("d", sprout::indeterminate(a))("m", maybe(a)); e.emit();
}
static void un(tribool a) { Ev e("un"); e("a", nm(a))("not", nm(!a))("c", a ? true : false)("d", sprout::indeterminate(a))("m", maybe(a)); e.emit(); }
template<typename C> std::basic_string<C> widen(std::string const& s) { return std::basic_string<C>(s.begin(), s.end()); }
template<typename C> std::vector<int> codes(std::basic_string<C> const& s) { std::vector<int> r; for (C c : s) r.push_back(int(c)); return r; }
template<typename C> void put(tribool t, bool alpha, std::string const& third, bool kw) {
	std::basic_ostringstream<C> o; if (alpha) o << std::boolalpha;
	if (!third.empty()) o.imbue(std::locale(o.getloc(), new sprout::logic::indeterminate_name<C>(widen<C>(third))));
	if (kw) o << sprout::indeterminate; else o << t;
	Ev e("put"); e("t", nm(t))("alpha", alpha)("third", codes<char>(third))("r", codes<C>(o.str())); e.emit();
	std::basic_istringstream<C> i(o.str()); if (alpha) i >> std::boolalpha; i.imbue(o.getloc());
	for (int k = 0; k < 3; ++k) { std::basic_istringstream<C> j(o.str()); if (alpha) j >> std::boolalpha; j.imbue(o.getloc()); tribool x = mk(k); j >> x; Ev f("back"); f("t", nm(t))("r", nm(x))("ok", !j.fail()); f.emit(); }
}
template<typename C> void get(std::string const& text, bool alpha, std::string const& third, int start) {
	std::basic_istringstream<C> i(widen<C>(text)); if (alpha) i >> std::boolalpha;
	if (!third.empty()) i.imbue(std::locale(i.getloc(), new sprout::logic::indeterminate_name<C>(widen<C>(third))));
	tribool x = mk(start); std::vector<std::string> r; std::vector<int> ok;
	for (int k = 0; k < 4; ++k) { i >> x; r.push_back(nm(x)); ok.push_back(i.fail() ? 0 : 1); }
	Ev e("get"); e("text", codes<char>(text))("alpha", alpha)("third", codes<char>(third))("start", nm(mk(start)))("r", r)("ok", ok); e.emit();
}
static void table() {
	for (int a = 0; a < 3; ++a) {
		un(mk(a)); tribool A = mk(a);
		for (int b = 0; b < 3; ++b) { tribool B = mk(b); OPS("tt", A, B, A, B) }
		for (int b = 0; b < 2; ++b) { bool B = b != 0; OPS("tb", A, B, A, mk(b)) OPS("bt", B, A, mk(b), A) }
		OPS("ti", A, sprout::indeterminate, A, KI) OPS("it", sprout::indeterminate, A, KI, A) OPS("tm", A, maybe, A, KI) OPS("mt", maybe, A, KI, A)
	}
	stat<0, 0>(); stat<0, 1>(); stat<0, 2>(); stat<1, 0>(); stat<1, 1>(); stat<1, 2>(); stat<2, 0>(); stat<2, 1>(); stat<2, 2>();
	{ tribool d; Ev e("def"); e("r", nm(d)); e.emit(); }
	for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) { Ev e("hash"); e("a", nm(mk(a)))("b", nm(mk(b)))("r", sprout::to_hash(mk(a)) == sprout::to_hash(mk(b)))("q", std::hash<tribool>()(mk(a)) == std::hash<tribool>()(mk(b)))("k", sprout::to_hash(mk(a)) == sprout::to_hash(sprout::indeterminate)); e.emit(); }
}
static void registers(int steps) {	// a history of assignments over three registers
	tribool q[3] = {tribool(false), tribool(true), tribool(sprout::indeterminate)};
	for (int k = 0; k < steps; ++k) {
		int i = vf::rnd(0, 2), j = vf::rnd(0, 2), d = vf::rnd(0, 2), f = vf::rnd(0, 11), b = vf::rnd(0, 1); const char* n = "";
		switch (f) {
		case 0: q[d] = q[i]; n = "copy"; break; case 1: q[d] = b != 0; n = "bool"; break; case 2: q[d] = sprout::indeterminate; n = "third"; break; case 3: q[d] = !q[i]; n = "not"; break;
		case 4: q[d] = q[i] && q[j]; n = "&&"; break; case 5: q[d] = q[i] || q[j]; n = "||"; break; case 6: q[d] = q[i] == q[j]; n = "=="; break; case 7: q[d] = q[i] != q[j]; n = "!="; break;
		case 8: std::swap(q[d], q[i]); n = "swap"; break; case 9: if (q[i]) q[d] = q[j]; n = "if"; break; case 10: if (!q[i]) q[d] = q[j]; n = "unless"; break; case 11: if (sprout::indeterminate(q[i])) q[d] = q[j]; n = "unknown"; break;
		}
		Ev e("step"); e("f", n)("i", i + 1)("j", j + 1)("d", d + 1)("b", b)("after", std::vector<std::string>{nm(q[0]), nm(q[1]), nm(q[2])}); e.emit();
	}
}
int main(int ac, char** av) {
	vf::init(ac, av);
#if PART == 2
	{ for (int h = 0; h < (vf::thorough() ? 600 : 60); ++h) { vf::begin_history(); registers(40); vf::end_history(); } return vf::done(); }
#endif
	table();
	std::vector<std::string> thirds = {"", "maybe", "unknown", "tribool", "fate", "x"};
	for (int t = 0; t < 3; ++t) for (int al = 0; al < 2; ++al) for (auto& n : thirds) { put<char>(mk(t), al, n, false); put<wchar_t>(mk(t), al, n, false); if (t == 2) put<char>(mk(t), al, n, true); }
	std::vector<std::string> pieces = {"true", "false", "indeterminate", "maybe", "tribool", "fate", "x", "tru", "fals", "indet", "0", "1", "2", "3", "-1", "+2", "01", "002", " ", "  ", "\n", "trueX", "falsee", "TRUE", "yes", "10", "2x"};
	for (auto& a : pieces) for (int al = 0; al < 2; ++al) for (auto& n : thirds) for (int s = 0; s < 3; ++s) get<char>(a, al, n, s);
	for (int k = 0; k < (vf::thorough() ? 20000 : 2500); ++k) {
		std::string x; int n = vf::rnd(1, 5), al = vf::rnd(0, 1); for (int j = 0; j < n; ++j) { x += vf::rnd(0, 3) ? pieces[al ? vf::rnd(0, 8) : vf::rnd(10, 15)] : pieces[vf::rnd(0, int(pieces.size()) - 1)]; if (vf::rnd(0, 4)) x += " "; }
		std::string const& th = thirds[vf::rnd(0, 5)]; int s = vf::rnd(0, 2); if (k % 3) get<char>(x, al, th, s); else get<wchar_t>(x, al, th, s);
	}
	return vf::done();
}
