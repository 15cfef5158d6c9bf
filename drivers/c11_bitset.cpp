// C11: histories of two bitsets of one width; after every step the whole observable state is recorded.
#include "vf.hpp"
#include <sprout/bitset.hpp>
#include <sprout/functional/hash.hpp>
#include <sstream>
#include <stdexcept>
typedef std::vector<int> V;

template<std::size_t N> V ones(sprout::bitset<N> const& b) { V r; for (std::size_t i = 0; i < N; ++i) if (b.test(i)) r.push_back(int(i)); return r; }
template<std::size_t N> sprout::bitset<N> build(V const& v) { sprout::bitset<N> b; for (int i : v) b.set(i); return b; }
template<std::size_t N> V chain(sprout::bitset<N> const& b) { V r; std::size_t i = b.find_first(); while (i < N && r.size() < 300) { r.push_back(int(i)); i = b.find_next(i); } r.push_back(int(i)); return r; }
V parse(std::string const& s, char one) { V r; for (std::size_t i = s.size(); i > 0; --i) if (s[i - 1] == one) r.push_back(int(s.size() - i)); return r; }
template<std::size_t N> void observe(vf::Ev& e, sprout::bitset<N> const& x, sprout::bitset<N> const& y) {
	V xs = ones(x);
	e("x", xs)("y", ones(y))("cnt", int(x.count()))("any", x.any())("all", x.all())("none", x.none())("ch", chain(x))("sz", int(x.size()));
	V idx; for (std::size_t i = 0; i < N; ++i) if (x[i]) idx.push_back(int(i));
	e("ix", idx);
	std::string s = x.to_string(), t = x.to_string('.', '#'), u = x.template to_string<char>('a', 'b');
	e("st", parse(s, '1'))("sl", int(s.size()))("t2", parse(t, '#') == xs && int(t.size()) == int(N) && parse(u, 'b') == xs);
	std::ostringstream os; os << x; e("os", os.str() == s);
	e("eq", x == y)("ne", x != y)("hq", sprout::to_hash(x) == sprout::to_hash(y))("rb", x == build<N>(xs) && sprout::to_hash(x) == sprout::to_hash(build<N>(xs)));
	bool of = false; unsigned long ul = 0; try { ul = x.to_ulong(); } catch (std::overflow_error const&) { of = true; }
	bool ol = false; unsigned long long ull = 0; try { ull = x.to_ullong(); } catch (std::overflow_error const&) { ol = true; }
	e("uo", of)("ul", vf::limbs(ul))("vo", ol)("vl", vf::limbs(ull));
	e.emit();
}
template<std::size_t N> int pos() { int r = vf::rnd(0, 9); return r < 5 ? vf::rnd(0, int(N) - 1) : r == 5 ? 0 : r == 6 ? int(N) - 1 : r == 7 ? std::min(int(N) - 1, 63) : r == 8 ? std::min(int(N) - 1, 64) : std::min(int(N) - 1, vf::rnd(0, 3) * 32 + vf::rnd(0, 1)); }
template<std::size_t N> int shift() { switch (vf::rnd(0, 6)) { case 0: return 0; case 1: return vf::rnd(0, int(N) + 2); case 2: return 64; case 3: return vf::rnd(60, 70); case 4: return vf::rnd(0, 5); case 5: return int(N) - (N ? 1 : 0); default: return vf::rnd(0, int(N)); } }
template<std::size_t N> void history(int len) {
	typedef sprout::bitset<N> B; typedef B const& K;
	B x, y; vf::begin_history(); { vf::Ev e("init"); e("w", int(N)); observe(e, x, y); }
	for (int step = 0; step < len; ++step) {
		int op = vf::rnd(0, 34);
		switch (op) {
		case 0: { vf::Ev e("setall"); x.set(); observe(e, x, y); break; }
		case 1: { vf::Ev e("setall"); x = K(x).set(); observe(e, x, y); break; }
		case 2: { vf::Ev e("resetall"); if (vf::rnd(0, 1)) x.reset(); else x = K(x).reset(); observe(e, x, y); break; }
		case 3: { vf::Ev e("flipall"); x.flip(); observe(e, x, y); break; }
		case 4: { vf::Ev e("flipall"); x = vf::rnd(0, 1) ? K(x).flip() : ~x; observe(e, x, y); break; }
		case 5: case 6: if (N) { int i = pos<N>(); bool v = vf::rnd(0, 2) > 0; vf::Ev e("put"); e("i", i)("v", v); if (op == 5) { if (v && vf::rnd(0, 1)) x.set(i); else x.set(i, v); } else x = K(x).set(i, v); observe(e, x, y); } break;
		case 7: if (N) { int i = pos<N>(); vf::Ev e("put"); e("i", i)("v", false); if (vf::rnd(0, 1)) x.reset(i); else x = K(x).reset(i); observe(e, x, y); } break;
		case 8: if (N) { int i = pos<N>(); vf::Ev e("flip"); e("i", i); if (vf::rnd(0, 1)) x.flip(i); else x = K(x).flip(i); observe(e, x, y); } break;
		case 9: if (N) { int i = pos<N>(); bool v = vf::rnd(0, 1); vf::Ev e("put"); e("i", i)("v", v); x[i] = v; observe(e, x, y); } break;
		case 10: if (N) { int i = pos<N>(), j = pos<N>(); vf::Ev e("put"); bool v = y.test(j); e("i", i)("v", v); x[i] = y[j]; observe(e, x, y); } break;
		case 11: if (N) { int i = pos<N>(); vf::Ev e("flip"); e("i", i); if (vf::rnd(0, 1)) x[i].flip(); else { bool b = ~x[i]; x[i] = b; } observe(e, x, y); } break;
		case 12: { vf::Ev e("and"); if (vf::rnd(0, 1)) x &= y; else x = x & y; observe(e, x, y); break; }
		case 13: { vf::Ev e("or"); if (vf::rnd(0, 1)) x |= y; else x = x | y; observe(e, x, y); break; }
		case 14: { vf::Ev e("xor"); if (vf::rnd(0, 1)) x ^= y; else x = x ^ y; observe(e, x, y); break; }
		case 15: case 16: { int k = shift<N>(); vf::Ev e("shl"); e("k", k); if (op == 15) x <<= k; else x = x << k; observe(e, x, y); break; }
		case 17: case 18: { int k = shift<N>(); vf::Ev e("shr"); e("k", k); if (op == 17) x >>= k; else x = x >> k; observe(e, x, y); break; }
		case 19: { vf::Ev e("copy"); x = y; observe(e, x, y); break; }
		case 20: { vf::Ev e("swap"); B t(x); x = y; y = sprout::move(t); observe(e, x, y); break; }
		case 21: case 22: { unsigned long long v = vf::rnd64(); if (vf::rnd(0, 2) == 0) v &= vf::rnd64(); if (vf::rnd(0, 3) == 0) v >>= vf::rnd(0, 63); if (vf::rnd(0, 5) == 0) v = 0; if (vf::rnd(0, 5) == 0) v = ~0ULL;
			vf::Ev e("val"); e("v", vf::limbs(v)); if (op == 21) x = B(v); else { B t(v); x = t; } observe(e, x, y); break; }
		case 23: case 24: case 25: case 26: {	// from text
			int L = vf::rnd(0, 3) ? vf::rnd(0, 12) : vf::rnd(0, int(N) + 8); std::string s; V bits; char z = '0', o = '1'; if (op >= 25) { z = 'x'; o = 'y'; }
			int bad = vf::rnd(0, 6) == 0 && L ? vf::rnd(0, L - 1) : -1;
			for (int i = 0; i < L; ++i) { int b = i == bad ? 2 : vf::rnd(0, 1); bits.push_back(b); s += b == 2 ? '?' : b ? o : z; }
			int p = vf::rnd(0, 4) == 0 ? vf::rnd(0, L + 2) : 0, n = vf::rnd(0, 2) == 0 ? vf::rnd(0, L + 2) : -1;
			if (op == 24) { p = 0; if (n > L) n = L; } if (op == 26) { p = 0; if (n < 0 || n > L) n = L; }
			vf::Ev e("text"); e("s", bits)("p", p)("n", n < 0 ? 1000 : n);
			std::string th = "no";
			try {
				if (op == 23) { if (n < 0) { B t(s, p); x = t; } else { B t(s, p, n); x = t; } }
				else if (op == 24) { if (n < 0) { B t(s.c_str()); x = t; } else { B t(s.c_str(), n); x = t; } }
				else if (op == 25) { B t(s, p, n < 0 ? std::string::npos : n, z, o); x = t; }
				else { B t(s.c_str(), n, z, o); x = t; }
			} catch (std::out_of_range const&) { th = "range"; } catch (std::invalid_argument const&) { th = "invalid"; }
			e("th", th); observe(e, x, y); break; }
		case 27: {	// stream input: up to N digits, stops at the first other character
			int L = vf::rnd(0, 1) ? int(N) : vf::rnd(0, int(N) + 3); V bits; std::string s; for (int i = 0; i < L; ++i) { int b = vf::rnd(0, 12) ? vf::rnd(0, 1) : 2; bits.push_back(b); s += b == 2 ? 'z' : b ? '1' : '0'; }
			std::istringstream is(s); vf::Ev e("io"); e("s", bits); is >> x; e("fail", is.fail()); is.clear(); std::string rest; std::getline(is, rest, '\0'); e("rest", int(rest.size())); observe(e, x, y); break; }
		case 28: { int i = int(N) + vf::rnd(0, 3); int w = vf::rnd(0, 3); vf::Ev e("oor"); bool th = false; try { switch (w) { case 0: x.set(i); break; case 1: x.reset(i); break; case 2: x.flip(i); break; default: (void)x.test(i); } } catch (std::out_of_range const&) { th = true; }
			e("th", th); observe(e, x, y); break; }
		default: if (N) { int i = pos<N>(); vf::Ev e("put"); e("i", i)("v", true); x.set(i); observe(e, x, y); } break;
		}
		if (vf::rnd(0, 7) == 0) { vf::Ev e("swap"); B t(x); x = y; y = t; observe(e, x, y); }
	}
	vf::end_history();
}
int main(int argc, char** argv) {
	vf::init(argc, argv);
	int k = vf::thorough() ? 150 : 20;
	for (int r = 0; r < k; ++r) {
#if PART == 1
		history<0>(20); history<1>(40); history<2>(40); history<3>(60); history<8>(60); history<31>(60); history<32>(60); history<33>(60); history<63>(70);
#elif PART == 2
		history<64>(80); history<65>(80); history<66>(60); history<96>(60); history<100>(60);
#else
		history<127>(60); history<128>(60); history<129>(60); history<191>(50); history<193>(50);
#endif
	}
	return vf::done();
}
