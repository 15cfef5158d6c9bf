// C32: UUIDs: text, streams, generators, comparisons.
#include "vf.hpp"
#include <sprout/uuid.hpp>
#include <sprout/random.hpp>
#include <sprout/string.hpp>
#include <sprout/tuple.hpp>
#include <list>
#include <sstream>
#include <random>
#include <unordered_set>
#include <iomanip>
#ifndef PART
#define PART 1
#endif
using vf::Ev;
typedef std::vector<int> V; typedef sprout::uuids::uuid U;
static vf::raw B(U const& u) { V v; for (int i = 0; i < 16; ++i) v.push_back(u.elems[i]); return vf::raw{vf::js(v)}; }
static vf::raw list(std::vector<vf::raw> const& v) { std::string s; for (auto& r : v) s += (s.empty() ? "" : ",") + r.s; return vf::raw{"[" + s + "]"}; }
template<typename S> vf::raw codes(S const& s) { V v; for (auto ch : s) v.push_back(int(static_cast<typename std::make_unsigned<decltype(+ch)>::type>(ch))); return vf::raw{vf::js(v)}; }
static vf::raw ccodes(std::string const& s) { V v; for (char ch : s) v.push_back(static_cast<unsigned char>(ch)); return vf::raw{vf::js(v)}; }
static U rnd() { U u; int k = vf::rnd(0, 5); for (int i = 0; i < 16; ++i) u.elems[i] = k == 0 ? 0 : k == 1 ? 255 : k == 2 ? static_cast<unsigned char>(vf::rnd(0, 1) * 0xA0 + vf::rnd(0, 1) * 0x0F) : static_cast<unsigned char>(vf::rnd(0, 255)); if (k == 0 && vf::rnd(0, 1)) u.elems[vf::rnd(0, 15)] = static_cast<unsigned char>(1 << vf::rnd(0, 7)); return u; }
// reading a text with every overload of one character type
struct R { bool ok; U u; };
template<typename F> void got(std::vector<R>& r, F f) { R x = {true, {{0}}}; try { x.u = f(); } catch (std::runtime_error const&) { x.ok = false; } r.push_back(x); }
template<typename C> void parse(std::basic_string<C> const& s, bool all) {
	std::vector<R> r;
	got(r, [&] { return sprout::uuids::make_uuid(s.begin(), s.end()); });
	std::list<C> l(s.begin(), s.end()); got(r, [&] { return sprout::uuids::string_generator()(l.begin(), l.end()); });
	bool z = s.find(C()) != std::basic_string<C>::npos;
	if (!z) { got(r, [&] { return sprout::uuids::make_uuid(s.c_str()); }); if (all) got(r, [&] { return sprout::uuids::string_generator()(s.c_str()); }); }
	if (!z && s.size() <= 64) { sprout::basic_string<C, 64> t(s.c_str()); got(r, [&] { return sprout::uuids::make_uuid(t); }); if (all) got(r, [&] { return sprout::uuids::string_generator()(t); }); }
	V ok; std::vector<vf::raw> u; for (auto& x : r) { ok.push_back(x.ok); u.push_back(B(x.u)); }
	V cd; for (C ch : s) cd.push_back(sizeof(C) == 1 ? int(static_cast<unsigned char>(ch)) : int(ch & 0x7fffffff));
	Ev e("parse"); e("t", cd)("ok", ok)("u", list(u)); e.emit();
}
template<typename C> std::basic_string<C> widen(std::string const& s) { return std::basic_string<C>(s.begin(), s.end()); }
static std::string text(U const& u, bool dashes, int up, bool braces) {
	std::string s; char q[4]; for (int i = 0; i < 16; ++i) { std::snprintf(q, 4, (up == 1 || (up == 2 && vf::rnd(0, 1))) ? "%02X" : "%02x", u.elems[i]); s += q; if (dashes && (i == 3 || i == 5 || i == 7 || i == 9)) s += '-'; }
	return braces ? "{" + s + "}" : s;
}
static void each(std::string const& s) { switch (vf::rnd(0, 3)) { case 0: parse(widen<char>(s), false); break; case 1: parse(widen<wchar_t>(s), false); break; case 2: parse(widen<char16_t>(s), false); break; default: parse(widen<char32_t>(s), false); } }
template<typename C> void mutants(U const& u) {
	for (int f = 0; f < 8; ++f) {
		std::basic_string<C> t = widen<C>(text(u, f & 1, f & 2 ? 2 : 0, f & 4)); parse(t, true);
		C const bad[] = {C('-'), C('{'), C('}'), C('g'), C('G'), C('/'), C(':'), C('@'), C('`'), C(' '), C('A'), C('f'), C('0'), sizeof(C) > 1 ? C(0x130) : C(0xB0), sizeof(C) > 1 ? C(0x161) : C('z')};
		std::size_t n = t.size();
		for (std::size_t i = 0; i < n; ++i) {
			std::basic_string<C> m = t; m[i] = bad[std::size_t(vf::rnd(0, 14))]; parse(m, false);
			m = t; m.erase(i, 1); parse(m, false);
			m = t; m.insert(i, 1, t[i]); parse(m, false);
			if (vf::thorough()) for (C b : bad) { m = t; m[i] = b; parse(m, false); m = t; m.insert(i, 1, b); parse(m, false); }
		}
		for (C b : bad) { parse(t + b, false); parse(b + t, false); }
		for (std::size_t i = 0; i < n; i += vf::thorough() ? 1 : 7) parse(t.substr(0, i), false);
	}
}
#define LIT(S) { std::string s(S); constexpr U a = S##_uuid, b = L"" S##_uuid, c = u"" S##_uuid, d = U"" S##_uuid, k = sprout::uuids::make_uuid(S); Ev e("parse"); e("t", codes(s))("ok", V{1, 1, 1, 1, 1})("u", list({B(a), B(b), B(c), B(d), B(k)})); e.emit(); }
template<typename C> void stream(U const& u) {
	for (int k = 0; k < (vf::thorough() ? 40 : 8); ++k) {
		std::basic_ostringstream<C> os; int w = vf::rnd(0, 2) ? vf::rnd(0, 45) : 0; int f = 33 + vf::rnd(0, 60); int adj = vf::rnd(0, 3); bool up = vf::rnd(0, 1) != 0; int base = vf::rnd(0, 2);
		os.fill(C(f)); if (adj == 1) os << std::left; else if (adj == 2) os << std::right; else if (adj == 3) os << std::internal;
		if (up) os << std::uppercase; if (base == 1) os << std::oct; if (base == 2) os << std::hex; if (vf::rnd(0, 2) == 0) os << std::showbase; if (vf::rnd(0, 2) == 0) os << std::showpos;
		std::ios_base::fmtflags fl = os.flags(); os.width(w); os << u;
		bool kept = os.flags() == fl && os.fill() == C(f) && os.width() == 0 && !os.fail(); std::size_t n = os.str().size(); os << 15; std::basic_string<C> all = os.str(), s = all.substr(0, n);
		Ev e("write"); e("u", B(u))("w", w)("f", f)("adj", adj == 1 ? "left" : adj == 2 ? "right" : adj == 3 ? "internal" : "none")("up", up)("kept", kept)("t", codes(s)); e.emit();
	}
}
template<typename C> void unstream(std::string const& s, bool noskip) {
	std::basic_istringstream<C> is(widen<C>(s)); U old = rnd(), v = old; if (noskip) is >> std::noskipws; is >> v; bool ok = !is.fail(); is.clear(); int pos = int(is.tellg());
	Ev e(noskip ? "readns" : "read"); e("t", ccodes(s))("ok", ok)("old", B(old))("u", B(v))("pos", pos); e.emit();
}
template<typename C> vf::raw nameBytes(std::basic_string<C> const& s) { V v; for (C ch : s) for (int k = int(sizeof(C)) - 1; k >= 0; --k) v.push_back(int((static_cast<unsigned long>(static_cast<typename std::make_unsigned<C>::type>(ch)) >> (8 * k)) & 255)); return vf::raw{vf::js(v)}; }
static vf::raw nameBytes(std::u16string const& s) { V v; for (char16_t ch : s) { v.push_back(ch >> 8); v.push_back(ch & 255); } return vf::raw{vf::js(v)}; }
static vf::raw nameBytes(std::u32string const& s) { V v; for (char32_t ch : s) for (int k = 3; k >= 0; --k) v.push_back(int((ch >> (8 * k)) & 255)); return vf::raw{vf::js(v)}; }
template<typename C> void named(U const& ns, std::basic_string<C> const& s) {
	sprout::basic_string<C, 160> t(s.c_str());
	Ev e("named"); e("ns", B(ns))("name", nameBytes(s))("md", list({B(sprout::uuids::make_uuid3(ns, s.c_str())), B(sprout::uuids::make_uuid3(ns, t)), B(sprout::uuids::md5_name_generator(ns)(s.c_str())), B(sprout::uuids::make_uuid3(ns)(t))}))
		("sh", list({B(sprout::uuids::make_uuid5(ns, s.c_str())), B(sprout::uuids::make_uuid5(ns, t)), B(sprout::uuids::sha1_name_generator(ns)(s.c_str())), B(sprout::uuids::name_generator(ns)(t)), B(sprout::uuids::make_uuid5(ns)(s.c_str()))})); e.emit();
	Ev f("wellknown"); f("name", nameBytes(s))("which", std::vector<std::string>{"dns", "url", "oid", "x500", "nil", "nil"})
		("md", list({B(sprout::uuids::make_uuid3_dns()(s.c_str())), B(sprout::uuids::make_uuid3_url()(t)), B(sprout::uuids::make_uuid3_oid()(s.c_str())), B(sprout::uuids::make_uuid3_x500()(t)), B(sprout::uuids::make_uuid3(s.c_str())), B(sprout::uuids::make_uuid3()(t))}))
		("sh", list({B(sprout::uuids::make_uuid5_dns()(s.c_str())), B(sprout::uuids::make_uuid5_url()(t)), B(sprout::uuids::make_uuid5_oid()(s.c_str())), B(sprout::uuids::make_uuid5_x500()(t)), B(sprout::uuids::make_uuid5(s.c_str())), B(sprout::uuids::make_uuid5()(t))})); f.emit();
}
template<typename C> std::basic_string<C> name(int n) { std::basic_string<C> s; unsigned long top = sizeof(C) == 1 ? 255 : sizeof(C) == 2 ? 65535 : 0x10FFFF; for (int i = 0; i < n; ++i) s += C(1 + vf::rnd64() % top); return s; }
static vf::raw word(std::uint32_t w) { return vf::raw{vf::js(V{int(w >> 16), int(w & 65535)})}; }
template<typename E> void random(E const& eng) {
	std::vector<vf::raw> w; sprout::random::uniform_int_distribution<std::uint32_t> d(0, 0xFFFFFFFFu);
	auto r = sprout::random::combine(eng, d)(); for (int k = 0; k < 4; ++k) { w.push_back(word(sprout::random::result(r))); r = sprout::random::next(r)(); }
	Ev e("random"); e("w", list(w))("u", list({B(sprout::uuids::make_uuid4(eng)), B(sprout::uuids::random_generator()(eng)), B(sprout::uuids::basic_random_generator<E>()(eng))})); e.emit();
}
using namespace sprout::literals;
int main(int ac, char** av) {
	vf::init(ac, av);
#if PART == 1 || PART == 2
	for (int t = 0, T = vf::thorough() ? 12 : 2; t < T; ++t) {
#if PART == 1
		mutants<char>(rnd()); mutants<char16_t>(rnd());
#else
		mutants<wchar_t>(rnd()); mutants<char32_t>(rnd());
#endif
	}
	for (int t = 0, T = vf::thorough() ? 5000 : 500; t < T; ++t) { U u = rnd(); each(text(u, vf::rnd(0, 1), vf::rnd(0, 2), vf::rnd(0, 1))); }
	for (int t = 0, T = vf::thorough() ? 2000 : 200; t < T; ++t) { std::string s; char const al[] = "0123456789abcdefABCDEF-{}gz "; for (int n = vf::rnd(0, 44); n > 0; --n) s += al[vf::rnd(0, vf::rnd(0, 3) ? 21 : 27)]; each(s); each("{" + s); each(s + "}"); }
#elif PART == 3
	LIT("6ba7b810-9dad-11d1-80b4-00c04fd430c8") LIT("{6BA7B810-9DAD-11D1-80B4-00C04FD430C8}") LIT("{00000000000000000000000000000000}") LIT("ffffffffFFFFFFFFffffffffFFFFFFFF")
	for (int t = 0, T = vf::thorough() ? 3000 : 400; t < T; ++t) {
		U u = rnd();
		Ev e("format"); e("u", B(u))("t", list({codes(sprout::uuids::to_string(u)), codes(sprout::uuids::to_wstring(u)), codes(sprout::uuids::to_u16string(u)), codes(sprout::uuids::to_u32string(u)), codes(sprout::uuids::to_string_of<char>(u))})); e.emit();
		bool back = sprout::uuids::make_uuid(sprout::uuids::to_string(u)) == u && sprout::uuids::make_uuid(sprout::uuids::to_wstring(u)) == u && sprout::uuids::make_uuid(sprout::uuids::to_u16string(u)) == u && sprout::uuids::make_uuid(sprout::uuids::to_u32string(u)) == u;
		std::stringstream ss; ss << u; U v = rnd(); ss >> v; std::wstringstream ws; ws << u << L' ' << v; U x, y; ws >> x >> y;
		Ev f("back"); f("r", V{back, v == u, x == u, y == u}); f.emit();
		static char const* vn[] = {"ncs", "rfc", "microsoft", "future"};
		Ev g("marks"); g("u", B(u))("variant", vn[int(u.variant())])("version", int(u.version()))("nil", u.is_nil()); g.emit();
	}
	for (int b = 0; b < 256; ++b) { U u = rnd(); u[6] = static_cast<unsigned char>(b); u[8] = static_cast<unsigned char>(255 - b); static char const* vn[] = {"ncs", "rfc", "microsoft", "future"}; Ev g("marks"); g("u", B(u))("variant", vn[int(u.variant())])("version", int(u.version()))("nil", u.is_nil()); g.emit(); }
	{ Ev e("nil"); e("u", list({B(sprout::uuids::nil_uuid()), B(sprout::uuids::nil_generator()())})); e.emit(); }
	{ Ev e("spaces"); e("u", list({B(sprout::uuids::namespace_dns_uuid()), B(sprout::uuids::namespace_url_uuid()), B(sprout::uuids::namespace_oid_uuid()), B(sprout::uuids::namespace_x500_uuid())})); e.emit(); }
	for (int t = 0, T = vf::thorough() ? 300 : 50; t < T; ++t) { stream<char>(rnd()); stream<wchar_t>(rnd()); }
	for (int t = 0, T = vf::thorough() ? 6000 : 900; t < T; ++t) {
		std::string s = text(rnd(), vf::rnd(0, 9) != 0, 2, vf::rnd(0, 19) == 0); int k = vf::rnd(0, 5);
		if (k == 1) s[std::size_t(vf::rnd(0, int(s.size()) - 1))] = "g-/:@G`0"[vf::rnd(0, 7)]; else if (k == 2) s.insert(std::size_t(vf::rnd(0, int(s.size()))), 1, " \t\nx-"[vf::rnd(0, 4)]); else if (k == 3) s = s.substr(0, std::size_t(vf::rnd(0, int(s.size())))); else if (k == 4) s = "  " + s + "tail";
		bool ns = vf::rnd(0, 4) == 0; if (t & 1) unstream<char>(s, ns); else unstream<wchar_t>(s, ns);
	}
#elif PART == 4
	for (int n = 0; n <= 60; n += vf::thorough() ? 1 : 4) { named(rnd(), name<char>(n)); if (n % 3 == 0) { named(rnd(), name<wchar_t>(n / 3)); named(rnd(), name<char16_t>(n / 2)); named(rnd(), name<char32_t>(n / 4)); } }
	for (int n : {23, 24, 31, 32, 39, 40, 47, 48, 49, 55, 56, 103, 104, 112, 150}) named(rnd(), name<char>(n));
	for (int n : {11, 12, 13, 27, 28, 29}) { named(rnd(), name<wchar_t>(n)); named(rnd(), name<char32_t>(n)); named(rnd(), name<char16_t>(n * 2)); }
#define LN(S, W) { std::string s("block"); Ev e("lit"); e("which", W)("name", nameBytes(s))("md", list({B((S##_uuid3)("block")), B((S##_uuid3)(sprout::to_string("block")))}))("sh", list({B((S##_uuid5)("block"))})); e.emit(); }
#define LNS(S, W) LN(S, W) LN(L##S, W) LN(u##S, W) LN(U##S, W)
	LNS("dns", "dns") LNS("DNS", "dns") LNS("url", "url") LNS("Url", "url") LNS("oid", "oid") LNS("OiD", "oid") LNS("x500", "x500") LNS("X500", "x500") LNS("6ba7b810-9dad-11d1-80b4-00c04fd430c8", "dns") LNS("{6BA7B8119DAD11D180B400C04FD430C8}", "url") LNS("00000000000000000000000000000000", "nil")
#elif PART == 5
	for (int t = 0, T = vf::thorough() ? 600 : 80; t < T; ++t) {
		std::uint32_t s = std::uint32_t(vf::rnd64()); random(sprout::random::mt19937(s)); random(sprout::random::minstd_rand0(s)); random(sprout::random::default_random_engine(s)); random(sprout::random::taus88(s));
		{ std::mt19937 g(s); std::vector<vf::raw> w; for (int k = 0; k < 4; ++k) w.push_back(word(std::uint32_t(g()))); Ev e("random"); e("w", list(w))("u", list({B(sprout::uuids::make_uuid4(sprout::random::mt19937(s))), B(sprout::uuids::basic_random_generator<sprout::random::mt19937>()(s))})); e.emit(); }
		{ sprout::random::default_random_engine g(s); Ev e("same"); e("u", list({B(sprout::uuids::make_uuid4(s)), B(sprout::uuids::random_generator()(s)), B(sprout::uuids::make_uuid4(g))})); e.emit(); }
	}
	for (int t = 0, T = vf::thorough() ? 6000 : 900; t < T; ++t) {
		U a = rnd(), b = vf::rnd(0, 2) ? a : rnd(); if (vf::rnd(0, 1)) b[std::size_t(vf::rnd(0, 15))] = static_cast<unsigned char>(vf::rnd(0, 255));
		bool h = sprout::hash<U>()(a) == sprout::hash<U>()(b), g = std::hash<U>()(a) == std::hash<U>()(b), hr = sprout::hash<U>()(a) == sprout::hash_range(a);
		Ev e("cmp"); e("a", B(a))("b", B(b))("r", V{a == b, a != b, a < b, a > b, a <= b, a >= b})("h", V{h, g})("hr", hr);
		U x = a, y = b; x.swap(y); e("s1", list({B(x), B(y)})); swap(x, y); e("s2", list({B(x), B(y)})); e.emit();
		V it(a.begin(), a.end()), cit(a.cbegin(), a.cend()), ix, at, rv(a.rbegin(), a.rend()), crv(a.crbegin(), a.crend()), p(a.data(), a.data() + 16), ca(a.c_array(), a.c_array() + 16); U const& q = a; for (std::size_t i = 0; i < 16; ++i) { ix.push_back(a[i]); at.push_back(q.at(i)); }
		V out; for (std::size_t i : {std::size_t(16), std::size_t(17), ~std::size_t(0)}) { try { (void)a.at(i); out.push_back(0); } catch (std::out_of_range const&) { out.push_back(1); } try { (void)q.at(i); out.push_back(0); } catch (std::out_of_range const&) { out.push_back(1); } try { a.rangecheck(i); out.push_back(0); } catch (std::out_of_range const&) { out.push_back(1); } }
		Ev f("view"); f("a", B(a))("fwd", list({vf::raw{vf::js(it)}, vf::raw{vf::js(cit)}, vf::raw{vf::js(ix)}, vf::raw{vf::js(at)}, vf::raw{vf::js(p)}, vf::raw{vf::js(ca)}}))("rev", list({vf::raw{vf::js(rv)}, vf::raw{vf::js(crv)}}))("ends", V{a.front(), q.front(), a.back(), q.back()})("sz", V{int(a.size()), int(a.max_size()), a.empty(), int(std::tuple_size<U>::value)})("out", out)
			("tup", V{sprout::tuples::get<0>(a), sprout::tuples::get<7>(q), sprout::tuples::get<15>(U(a))}); f.emit();
		int v = vf::rnd(0, 255); std::size_t k = std::size_t(vf::rnd(0, 15)); U m = a; m.fill(static_cast<unsigned char>(v)); U n = a; n.assign(static_cast<unsigned char>(v)); U o = a; o.at(k) = static_cast<unsigned char>(v); U r = a; *(r.begin() + std::ptrdiff_t(k)) = static_cast<unsigned char>(v);
		Ev g2("edit"); g2("a", B(a))("v", v)("k", int(k) + 1)("full", list({B(m), B(n)}))("one", list({B(o), B(r)})); g2.emit();
	}
#endif
	return vf::done();
}
