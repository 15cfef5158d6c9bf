// C30: brainfuck programs run to the end; ook and misa spellings translated and run.
#include "vf.hpp"
#include <sprout/brainfuck/brainfuck.hpp>
#include <sprout/brainfuck/ook.hpp>
#include <sprout/brainfuck/misa.hpp>
#include <sprout/string.hpp>
#include <sprout/array.hpp>
#include <list>
#ifndef PART
#define PART 1
#endif
using vf::Ev;
typedef std::vector<int> V;
static V codes(std::string const& s) { V v; for (char c : s) v.push_back(static_cast<unsigned char>(c)); return v; }
// does the program stop on its own soon enough to be worth running? (not a judge of the result)
static bool halts(std::string const& p, V const& in, bool endless, int tape, int cap, int mask, int* steps = 0) {
	std::vector<int> t(std::size_t(tape), 0); int pos = 0, out = 0; std::size_t ip = 0;
	for (std::size_t pc = 0, n = 0; pc < p.size(); ++pc) {
		if (++n > 1500) return false; if (steps) *steps = int(n); char c = p[pc];
		if (c == '>') { ++pos; continue; } if (c == '<') { --pos; continue; }
		if (std::string("+-.,[]").find(c) == std::string::npos) continue;
		if (c == '.') { if (out++ >= cap) return true; } if (c == ',' && !endless && ip >= in.size()) return true;
		if (pos < 0 || pos >= tape) return true; int& q = t[std::size_t(pos)];
		if (c == '+') q = (q + 1) & mask; if (c == '-') q = (q - 1) & mask; if (c == ',') { q = endless ? 0 : in[ip] & mask; ++ip; }
		if ((c == '[' && q == 0) || (c == ']' && q != 0)) { int d = 0, s = c == '[' ? 1 : -1; do { d += p[pc] == '[' ? 1 : p[pc] == ']' ? -1 : 0; if (d) pc = std::size_t(std::ptrdiff_t(pc) + s); } while (d); }
	}
	return true;
}
static std::string piece(int depth, int len) {
	std::string s; char const c[] = "><+-.,+-><+x";
	for (int k = 0; k < len; ++k) {
		int w = vf::rnd(0, 14);
		if (w < 12) s += std::string(std::size_t(vf::rnd(0, 3) ? 1 : vf::rnd(1, 9)), c[w]);
		else if (depth == 0) s += '+';
		else { int sh = vf::rnd(0, 4); s += sh == 0 ? "[-]" : sh == 1 ? "[->+<]" : sh == 2 ? "[" + piece(depth - 1, vf::rnd(0, 3)) + "-]" : sh == 3 ? "[>" + piece(depth - 1, vf::rnd(0, 3)) + "<-]" : "[" + piece(depth - 1, vf::rnd(0, 4)) + "]"; }
	}
	return s;
}
struct Out { bool ok; V r; };
template<typename F> Out run(F f) { Out o = {true, V()}; try { auto r = f(); for (auto c : r) o.r.push_back(int(c)); } catch (std::out_of_range const&) { o.ok = false; } return o; }
static void put(std::string const& p, V const& in, bool endless, int tape, V const& blank, int lo, int n, std::vector<Out> const& os) {
	std::string s; V ok; for (auto& o : os) { ok.push_back(o.ok); s += (s.empty() ? "" : ",") + vf::js(o.r); }
	Ev e("run"); e("p", codes(p))("inp", in)("endless", endless)("tape", tape)("blank", blank)("lo", lo)("n", n)("ok", ok)("r", vf::raw{"[" + s + "]"}); e.emit();
}
template<typename C, std::size_t TAPE, std::size_t CAP> void all(std::string const& p, V const& in, int lo, int n) {
	if (!halts(p, in, false, TAPE, CAP, n - 1)) return;
	std::basic_string<C> src(p.begin(), p.end()); std::list<C> lsrc(p.begin(), p.end()); std::vector<C> inp(in.begin(), in.end()); std::list<C> linp(in.begin(), in.end());
	sprout::array<C, CAP> blank; V bl; for (std::size_t k = 0; k < CAP; ++k) { blank[k] = C(65 + k); bl.push_back(65 + int(k)); } V zero(CAP, 0);
	namespace bf = sprout::brainfuck;
	put(p, in, false, TAPE, bl, lo, n, {run([&] { return bf::exec<TAPE>(src.data(), src.data() + src.size(), blank, inp.data(), inp.data() + inp.size()); }),
		run([&] { return bf::exec<TAPE>(lsrc.begin(), lsrc.end(), blank, linp.begin(), linp.end()); }), run([&] { return bf::exec_range<TAPE>(src, blank, inp); }), run([&] { return bf::exec_range<TAPE>(lsrc, blank, linp); })});
	put(p, in, false, TAPE, zero, lo, n, {run([&] { return bf::exec<TAPE>(src.begin(), src.end(), sprout::pit<sprout::array<C, CAP> >(), linp.begin(), linp.end()); }), run([&] { return bf::exec_range<TAPE>(src, sprout::pit<sprout::array<C, CAP> >(), inp); })});
	if (!halts(p, in, true, TAPE, CAP, n - 1)) return;
	put(p, in, true, TAPE, bl, lo, n, {run([&] { return bf::exec<TAPE>(src.begin(), src.end(), blank); }), run([&] { return bf::exec_range<TAPE>(src, blank); })});
	if (!halts(p, in, true, TAPE, TAPE, n - 1)) return;
	put(p, in, true, TAPE, V(TAPE, 0), lo, n, {run([&] { return bf::exec<TAPE>(lsrc.begin(), lsrc.end()); }), run([&] { return bf::exec_range<TAPE>(src); })});
}
static bool wf(std::string const& p) { int d = 0; for (char c : p) { d += c == '[' ? 1 : c == ']' ? -1 : 0; if (d < 0) return false; } return d == 0; }
static void formed(std::string const& p) {
	std::list<char> l(p.begin(), p.end()); std::wstring w(p.begin(), p.end());
	Ev e("formed"); e("p", codes(p))("r", V{sprout::brainfuck::is_well_formed(p.begin(), p.end()), sprout::brainfuck::is_well_formed(l.begin(), l.end()), sprout::brainfuck::is_well_formed(w.begin(), w.end())}); e.emit();
}
static V input() { V v; for (int n = vf::rnd(0, 6); n > 0; --n) v.push_back(vf::rnd(0, 3) ? vf::rnd(0, 4) : vf::rnd(-128, 127)); return v; }
static std::string spell(char c, bool ook, int loose) {
	static char const cs[] = "><+-.,[]"; int k = int(std::string(cs).find(c)); if (k < 0 || k > 7) return std::string(1, c);
	if (ook) { static char const* a[] = {"Ook.", "Ook?", "Ook.", "Ook!", "Ook!", "Ook.", "Ook!", "Ook?"}; static char const* b[] = {"Ook?", "Ook.", "Ook.", "Ook!", "Ook.", "Ook!", "Ook?", "Ook!"}; static char const* sp[] = {"", " ", "\n", " \t "}; return std::string(a[k]) + sp[loose ? vf::rnd(0, 3) : 1] + b[k] + (loose && vf::rnd(0, 1) ? " " : ""); }
	static std::vector<std::string> m[] = {{">", "\x81\xA8", "\x81\x60", "\x81\x5B"}, {"<", "\x81\xA9", "\x81\x9A", "\x81\x99"}, {"+", "\x82\xA0", "\x82\x9F", "\x82\xA8", "\x82\xA7"}, {"-", "\x82\xC1", "\x83\x62"}, {".", "\x81\x49"}, {",", "\x81\x48"}, {"[", "\x81\x75", "\x81\x77"}, {"]", "\x81\x76", "\x81\x78"}};
	return m[k][std::size_t(vf::rnd(0, int(m[k].size()) - 1))];
}
template<std::size_t N> void translate(std::string t, bool ook) {
	if (t.size() > 150) t.resize(150);
	typedef sprout::array<char, N> A; A blank; for (auto& c : blank) c = '#';
	namespace bf = sprout::brainfuck; std::list<char> l(t.begin(), t.end());
	auto a = ook ? bf::ook::to_brainfuck(t.begin(), t.end(), blank) : bf::misa::to_brainfuck(t.begin(), t.end(), blank);
	auto b = ook ? bf::ook::to_brainfuck(l.begin(), l.end(), blank) : bf::misa::to_brainfuck(l.begin(), l.end(), blank);
	Ev e(ook ? "ook" : "misa"); e("t", codes(t))("cap", int(N))("ok", V{a.second, b.second})("r", vf::raw{"[" + vf::js(codes(std::string(a.first.begin(), a.first.end()))) + "," + vf::js(codes(std::string(b.first.begin(), b.first.end()))) + "]"}); e.emit();
}
static void spelled(std::string const& p, V const& in, bool ook) {
	std::string t; for (char c : p) t += spell(c, ook, 1); if (t.size() > 200) return;
	if (!halts(p, in, false, 8, 6, 255)) return;
	sprout::basic_string<char, 200> src(t.c_str()); std::vector<char> inp(in.begin(), in.end()); sprout::array<char, 6> blank = {{'a', 'b', 'c', 'd', 'e', 'f'}}; V bl = {97, 98, 99, 100, 101, 102};
	namespace bf = sprout::brainfuck; std::vector<Out> o, q, d;
	if (ook) o.push_back(run([&] { return bf::ook::exec_range<8>(src, blank, inp); })); else o.push_back(run([&] { return bf::misa::exec_range<8>(src, blank, inp); }));
	put(p, in, false, 8, bl, -128, 256, o);
	if (!halts(p, in, true, 8, 6, 255) || !halts(p, in, true, 8, 8, 255)) return;
	if (ook) { q.push_back(run([&] { return bf::ook::exec_range<8>(src, blank); })); d.push_back(run([&] { return bf::ook::exec_range<8>(src); })); } else { q.push_back(run([&] { return bf::misa::exec_range<8>(src, blank); })); d.push_back(run([&] { return bf::misa::exec_range<8>(src); })); }
	put(p, in, true, 8, bl, -128, 256, q); put(p, in, true, 8, V(8, 0), -128, 256, d);
}
int main(int ac, char** av) {
	vf::init(ac, av);
	static char const cs[] = "><+-.,[]";
#if PART == 1
	// every well-formed program of up to four commands, more at random
	for (int len = 0, top = vf::thorough() ? 5 : 3; len <= top; ++len) { int n = 1; for (int k = 0; k < len; ++k) n *= 8; for (int c = 0; c < n; ++c) { std::string p; for (int k = 0, q = c; k < len; ++k, q /= 8) p += cs[q % 8]; formed(p); if (wf(p)) all<char, 2, 2>(p, input(), -128, 256); } }
	for (int t = 0, T = vf::thorough() ? 20000 : 2500; t < T; ++t) { std::string p; for (int k = vf::rnd(0, 12); k > 0; --k) p += cs[vf::rnd(0, 3) ? vf::rnd(0, 7) : 6 + vf::rnd(0, 1)]; formed(p); if (wf(p)) all<char, 3, 4>(p, input(), -128, 256); }
#elif PART == 2
	for (int t = 0, T = vf::thorough() ? 12000 : 1200; t < T; ++t) { std::string p = piece(2, vf::rnd(1, 9)); all<char, 5, 6>(p, input(), -128, 256); }
	for (int t = 0, T = vf::thorough() ? 4000 : 400; t < T; ++t) { std::string p = piece(3, vf::rnd(3, 12)); all<char, 32, 8>(p, input(), -128, 256); }
	all<char, 32, 8>("++++++++[>++++[>++>+++>+++>+<<<<-]>+>+>->>+[<]<-]>>.>---.+++++++..+++.", V(), -128, 256);
	all<char, 4, 8>(",[.,]", V{72, 105, 33, 0}, -128, 256); all<char, 4, 8>("-.[-]--.+++.", V(), -128, 256);
#elif PART == 3
	for (int t = 0, T = vf::thorough() ? 6000 : 800; t < T; ++t) { V in; for (int n = vf::rnd(0, 5); n > 0; --n) in.push_back(vf::rnd(0, 3) ? vf::rnd(0, 4) : vf::rnd(0, 65535)); all<char16_t, 4, 5>(piece(2, vf::rnd(1, 8)), in, 0, 65536); }
#elif PART == 4
	for (int t = 0, T = vf::thorough() ? 5000 : 600; t < T; ++t) {
		std::string s; for (int k = vf::rnd(0, 14); k > 0; --k) { if (vf::rnd(0, 3)) s += spell(cs[vf::rnd(0, 7)], true, 1); else { static char const* junk[] = {"Ook", "Ook.", "Ook?", "Ook!", "ook.", " ", "k.", "O", "OokOok.", "\n", "[", "Ook. O"}; s += junk[vf::rnd(0, 11)]; } }
		translate<24>(s, true); if (t % 3 == 0) translate<5>(s, true);
		s.clear(); for (int k = vf::rnd(0, 14); k > 0; --k) { if (vf::rnd(0, 3)) s += spell(cs[vf::rnd(0, 7)], false, 1); else { static char const* junk[] = {"\x81", "\x82", "\x83", "\xA8", "5B", "\x05" "B", " ", "a", "\x81\x82\xA0", "\x9A", "\x76", "\x49"}; s += junk[vf::rnd(0, 11)]; } }
		translate<24>(s, false); if (t % 3 == 0) translate<5>(s, false);
	}
	for (int c = 0; c < 256; ++c) for (int l : {0x81, 0x82, 0x83}) { std::string s; s += char(l); s += char(c); translate<5>(s, false); }
	for (char a : std::string(".?!,")) for (char b : std::string(".?!,")) translate<24>(std::string("Ook") + a + " Ook" + b, true);
#elif PART == 5
	for (int t = 0, T = vf::thorough() ? 2500 : 300; t < T; ++t) { std::string p = piece(1, vf::rnd(1, 6)); spelled(p, input(), t & 1); }
	constexpr auto src = sprout::to_string("++[>+++<-]>.--,."); constexpr auto r = sprout::brainfuck::exec_range<4>(src, sprout::pit<sprout::array<char, 4> >(), sprout::to_string("z")); V v(r.begin(), r.end());
	put("++[>+++<-]>.--,.", V{122}, false, 4, V(4, 0), -128, 256, {Out{true, v}});
#endif
	return vf::done();
}
