// C31: checksums of every message, however it is fed.
#include "vf.hpp"
#include <sprout/checksum.hpp>
#include <sprout/string.hpp>
#include <sprout/array.hpp>
#include <list>
#include <forward_list>
#ifndef PART
#define PART 1
#endif
using vf::Ev;
typedef std::vector<int> V; typedef std::vector<unsigned char> B;
template<typename A> vf::raw arr(A const& a) { return vf::raw{vf::js(V(a.begin(), a.end()))}; }
static vf::raw bytes(B const& b) { return vf::raw{vf::js(V(b.begin(), b.end()))}; }
static vf::raw list(std::vector<vf::raw> const& v) { std::string s; for (auto& r : v) s += (s.empty() ? "" : ",") + r.s; return vf::raw{"[" + s + "]"}; }
template<typename S8, typename S16, typename S32, typename X> vf::raw sums(S8 const& a, S16 const& b, S32 const& c, X const& x) {
	unsigned v = c; char q[100]; std::snprintf(q, sizeof q, "{\"s8\":%u,\"s16\":%u,\"s32\":[%u,%u],\"x\":%u}", unsigned(a), unsigned(b), v >> 16, v & 65535, unsigned(x)); return vf::raw{q};
}
// the checksums by value and in place, side by side
struct All {
	sprout::md5 mm; sprout::sha1 mh; sprout::sum8 a; sprout::sum16 b; sprout::sum32 c; sprout::sum_basic<64> w; sprout::xor8 x;
	std::vector<sprout::md5> fm; std::vector<sprout::sha1> fh; std::vector<sprout::sum8> fa; std::vector<sprout::sum16> fb; std::vector<sprout::sum32> fc; std::vector<sprout::xor8> fx;
	bool whole;
	All() : fm(1), fh(1), fa(1), fb(1), fc(1), fx(1), whole(true) {}
	template<typename T> static void put(std::vector<T>& v, T const& n) { std::vector<T> t(1, n); v.swap(t); }
	void feed(B const& d, int how) {
		{ Ev e("bytes"); e("b", bytes(d)); e.emit(); }
		sprout::md5 const m = fm[0]; sprout::sha1 const h = fh[0]; sprout::sum8 const s8 = fa[0]; sprout::sum16 const s16 = fb[0]; sprout::sum32 const s32 = fc[0]; sprout::xor8 const xr = fx[0];
		unsigned char const* p = d.data(); std::size_t n = d.size();
#define EACH(CALLC, CALLM) { put(fm, sprout::md5(m.CALLC)); put(fh, sprout::sha1(h.CALLC)); put(fa, sprout::sum8(s8.CALLC)); put(fb, sprout::sum16(s16.CALLC)); put(fc, sprout::sum32(s32.CALLC)); put(fx, sprout::xor8(xr.CALLC)); mm.CALLM; mh.CALLM; a.CALLM; b.CALLM; c.CALLM; w.CALLM; x.CALLM; }
		if (how == 0 || n == 0) { for (std::size_t i = 0; i < n; ++i) { unsigned char q = p[i]; put(fm, sprout::md5(const_cast<sprout::md5 const&>(fm[0]).process_byte(q))); put(fh, sprout::sha1(fh[0].c_process_byte(q))); put(fa, sprout::sum8(fa[0].c_process_byte(q))); put(fb, sprout::sum16(const_cast<sprout::sum16 const&>(fb[0]).process_byte(q))); put(fc, sprout::sum32(fc[0].c_process_byte(q))); put(fx, sprout::xor8(const_cast<sprout::xor8 const&>(fx[0]).process_byte(q))); mm.process_byte(q); mh.process_byte(q); a.process_byte(q); b.process_byte(q); c.process_byte(q); w.process_byte(q); x.process_byte(q); } }
		else if (how == 1) EACH(process_block(p, p + n), process_block(p, p + n))
		else if (how == 2) EACH(process_bytes(p, n), process_bytes(p, n))
		else if (how == 3) EACH(c_process_range(d), process_range(d))
		else if (how == 4) { std::vector<signed char> t(d.begin(), d.end()); EACH(c_process_bytes(t.begin(), n), process_block(t.begin(), t.end())) }
		else if (how == 5) { std::list<char> t(d.begin(), d.end()); EACH(c_process_block(t.begin(), t.end()), process_block(t.begin(), t.end())) }
		else { // wider elements give their bytes from the highest (endian_traits is network order)
			if (n % 4 == 0) { std::vector<unsigned> t; for (std::size_t i = 0; i < n; i += 4) t.push_back(unsigned(p[i]) << 24 | p[i + 1] << 16 | p[i + 2] << 8 | p[i + 3]); EACH(c_process_block(t.begin(), t.end()), process_range(t)) }
			else if (n % 2 == 0) { std::vector<char16_t> t; for (std::size_t i = 0; i < n; i += 2) t.push_back(char16_t(p[i] << 8 | p[i + 1])); EACH(c_process_block(t.begin(), t.end()), process_bytes(t.begin(), n / 2)) }
			else EACH(c_process_block(p, p + n), process_block(p, p + n))
		}
	}
	void bits(V const& v, int how) {
		whole = false;
		{ Ev e("bits"); e("v", v); e.emit(); }
		if (how == 0) for (int q : v) { put(fm, sprout::md5(fm[0].c_process_bit(q != 0))); mm.process_bit(q != 0); }
		else { unsigned char q = 0; for (int k : v) q = static_cast<unsigned char>(q * 2 + k); put(fm, sprout::md5(fm[0].c_process_bits(q, v.size()))); mm.process_bits(q, v.size()); }
	}
	void read() {
		Ev e("read"); std::vector<vf::raw> md = {arr(mm()), arr(fm[0]()), arr(mm.checksum())}, sh;
		if (whole) sh = {arr(mh()), arr(fh[0]()), arr(fh[0].checksum())};
		e("md", list(md))("sh", list(sh)); e.emit();
		if (whole) { Ev f("sums"); f("r", list({sums(a(), b(), c(), x()), sums(fa[0](), fb[0].checksum(), fc[0](), fx[0]()), sums(a.checksum(), b.checksum(), (unsigned)w(), x.checksum())})); f.emit(); }
	}
	void reset() { Ev e("reset"); e.emit(); mm.reset(); mh.reset(); a.reset(); b.reset(); c.reset(); w.reset(); x.reset(); *this = fresh(*this); }
	static All fresh(All const& o) { All r; r.mm = o.mm; r.mh = o.mh; r.a = o.a; r.b = o.b; r.c = o.c; r.w = o.w; r.x = o.x; return r; }
	void resetto(unsigned v) { Ev e("resetto"); e("v", V{int(v >> 16), int(v & 65535)}); e.emit(); *this = All(); a.reset(v); b.reset(v); c.reset(v); w.reset(v); x.reset(v); put(fa, sprout::sum8(v)); put(fb, sprout::sum16(v)); put(fc, sprout::sum32(v)); put(fx, sprout::xor8(v)); }
};
static B data(std::size_t n) { B b; int k = vf::rnd(0, 3); for (std::size_t i = 0; i < n; ++i) b.push_back(k == 0 ? 0xFF : k == 1 ? static_cast<unsigned char>(i) : static_cast<unsigned char>(vf::rnd(0, 255))); return b; }
static void cuts(B const& m, std::vector<std::size_t> at, int how) {
	vf::begin_history(); All a; std::size_t last = 0; at.push_back(m.size()); int k = 0;
	for (std::size_t c : at) { a.feed(B(m.begin() + last, m.begin() + c), (how + k++) % 7); if (c != m.size() && vf::rnd(0, 3) == 0) a.read(); last = c; }
	a.read(); vf::end_history();
}
#define TEXT(F, S) { std::string t(S); sprout::basic_string<char, 64> st(t.c_str()); B b(t.begin(), t.end()); Ev e("once"); e("b", bytes(b)) \
	("md", list({arr(sprout::make_md5(S)), arr(sprout::make_md5(st)), arr(sprout::make_md5(b.begin(), b.end())), arr(S##_md5)})) \
	("sh", list({arr(sprout::make_sha1(S)), arr(sprout::make_sha1(st)), arr(sprout::make_sha1(b.begin(), b.end())), arr(S##_sha1)})) \
	("r", sums(sprout::make_sum8(S), sprout::make_sum16(S), sprout::make_sum32(S), sprout::make_xor8(S))); e.emit(); \
	Ev f("once"); f("b", bytes(b))("md", list({}))("sh", list({}))("r", sums(S##_sum8, S##_sum16, S##_sum32, S##_xor8)); f.emit(); \
	Ev g("once"); g("b", bytes(b))("md", list({}))("sh", list({}))("r", sums(sprout::make_sum8(st), sprout::make_sum16(st), sprout::make_sum32(b.begin(), b.end()), sprout::make_xor8(st))); g.emit(); \
	Ev h("once"); h("b", bytes(b))("md", list({}))("sh", list({}))("r", sums(sprout::make_sum8(b.begin(), b.end()), sprout::make_sum16(b.begin(), b.end()), sprout::make_sum32(st), sprout::make_xor8(b.begin(), b.end()))); h.emit(); }
template<typename C> B wide(C const* s) { B b; for (; *s; ++s) for (std::size_t k = 0; k < sizeof(C); ++k) b.push_back(static_cast<unsigned char>((unsigned long)*s >> (8 * (sizeof(C) - 1 - k)))); return b; }
#define WIDE(S) { B b = wide(S); Ev e("once"); e("b", bytes(b))("md", list({arr(sprout::make_md5(S)), arr(S##_md5)}))("sh", list({arr(sprout::make_sha1(S)), arr(S##_sha1)}))("r", sums(sprout::make_sum8(S), sprout::make_sum16(S), sprout::make_sum32(S), sprout::make_xor8(S))); e.emit(); \
	Ev f("once"); f("b", bytes(b))("md", list({}))("sh", list({}))("r", sums(S##_sum8, S##_sum16, S##_sum32, S##_xor8)); f.emit(); }
using namespace sprout::literals;
int main(int ac, char** av) {
	vf::init(ac, av);
#if PART == 1
	// every length, in one piece and cut in two
	for (std::size_t n = 0; n <= (vf::thorough() ? 330u : 136u); ++n) { B m = data(n); cuts(m, {}, int(n % 7)); if (n) { std::size_t k = std::size_t(vf::rnd(0, int(n))); cuts(m, {k}, vf::rnd(0, 6)); } }
	// around the block boundary, every way to cut in two (and in three)
	for (std::size_t n : {55u, 56u, 57u, 63u, 64u, 65u, 119u, 120u, 128u}) { B m = data(n); for (std::size_t k = 0; k <= n; k += vf::thorough() ? 1 : 5) { cuts(m, {k}, vf::rnd(0, 6)); if (vf::thorough()) { std::size_t j = std::size_t(vf::rnd(int(k), int(n))); cuts(m, {k, j}, vf::rnd(0, 6)); } } }
#elif PART == 2
	for (int t = 0, T = vf::thorough() ? 700 : 110; t < T; ++t) {
		vf::begin_history(); All a; int len = 0, steps = vf::rnd(2, 9);
		for (int k = 0; k < steps; ++k) {
			int w = vf::rnd(0, 11); int n = w < 4 ? vf::rnd(0, 9) : w < 8 ? vf::rnd(0, 70) : w == 8 ? 64 - len % 64 : w == 9 ? 56 - len % 56 : w == 10 ? 128 : 4 * vf::rnd(0, 20);
			if (vf::rnd(0, 12) == 0) { a.reset(); a.read(); len = 0; }
			else if (vf::rnd(0, 20) == 0) { a.resetto(unsigned(vf::rnd64())); len = 0; }
			a.feed(data(std::size_t(n)), vf::rnd(0, 6)); len += n; if (vf::rnd(0, 2) == 0) a.read();
		}
		a.read(); if (vf::rnd(0, 1)) a.read(); vf::end_history();
	}
	{ vf::begin_history(); All a; a.feed(data(vf::thorough() ? 20000 : 3000), 2); a.read(); vf::end_history(); }
#elif PART == 3
	// messages of bits (md5): every residue modulo the block, bits and bytes mixed
	for (int n = 440; n <= 520; n += vf::thorough() ? 1 : 3) { vf::begin_history(); All a; a.whole = false; a.feed(data(std::size_t(n / 8)), 1); V v; for (int k = 0; k < n % 8; ++k) v.push_back(vf::rnd(0, 1)); a.bits(v, n & 1); a.read(); vf::end_history(); }
	for (int t = 0, T = vf::thorough() ? 400 : 80; t < T; ++t) {
		vf::begin_history(); All a; a.whole = false;
		for (int k = 0, q = vf::rnd(1, 8); k < q; ++k) { if (vf::rnd(0, 2)) { V v; for (int j = vf::rnd(0, 8); j > 0; --j) v.push_back(vf::rnd(0, 1)); a.bits(v, vf::rnd(0, 1)); } else a.feed(data(std::size_t(vf::rnd(0, 80))), vf::rnd(0, 6)); if (vf::rnd(0, 3) == 0) a.read(); }
		a.read(); vf::end_history();
	}
#elif PART == 4
	vf::begin_history();
	TEXT(0, "") TEXT(0, "a") TEXT(0, "abc") TEXT(0, "message digest") TEXT(0, "\xff\x80\x7f\x01") TEXT(0, "abcdefghijklmnopqrstuvwxyz") TEXT(0, "abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq")
	WIDE(L"") WIDE(L"abc") WIDE(L"\x1234\x10FFFF z") WIDE(u"") WIDE(u"abc") WIDE(u"\x1234z") WIDE(U"abc") WIDE(U"\x12345z")
	vf::end_history();
#endif
	return vf::done();
}
