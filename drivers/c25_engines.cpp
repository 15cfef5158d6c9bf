// C25: random number engines as state machines.
#include "vf.hpp"
#include <sprout/random.hpp>
#include <sprout/random/seed.hpp>
#include <sprout/random/generate_array.hpp>
#include <sprout/random/iterator.hpp>
#include <sprout/random/range.hpp>
#include <sstream>
#include <cstdint>
#ifndef PART
#define PART 1
#endif
using vf::Ev; namespace R = sprout::random; typedef unsigned __int128 u128; typedef std::vector<u128> W;
static std::string words(W const& w) { std::string r = "["; for (std::size_t i = 0; i < w.size(); ++i) { if (i) r += ","; r += vf::big_digits(w[i]); } return r + "]"; }
static vf::raw jw(W const& w) { return vf::raw{words(w)}; }
static std::string B(u128 v) { return vf::big_digits(v); }
#define S(x) std::to_string(x)
#define SG(U) ",\"tb\":" + S(8 * sizeof(U)) + (std::is_signed<U>::value ? ",\"sg\":true" : ",\"sg\":false")
// configurations as the specification reads them
template<typename E> struct Cfg;
template<typename U, U a, U c, U m> struct Cfg<R::linear_congruential_engine<U, a, c, m> > {
	static std::string g() { u128 mm = m == 0 ? (u128)std::numeric_limits<U>::max() + 1 : (u128)m; return "{\"k\":\"lcg\",\"a\":" + B(a) + ",\"c\":" + B(c) + ",\"m\":" + B(mm) + SG(U) + "}"; }
	enum { lcg = 1, sseq = 1, it = 1, seed = 1, two = 0, dom = 0 };
};
template<typename U, U a, U c, U m> struct Cfg<R::inversive_congruential_engine<U, a, c, m> > {
	static std::string g() { return "{\"k\":\"inv\",\"a\":" + B(a) + ",\"c\":" + B(c) + ",\"m\":" + B(m) + SG(U) + "}"; }
	enum { lcg = 0, sseq = 1, it = 1, seed = 1, two = 0, dom = 0 };
};
template<typename U, int w, int k, int q, int s> struct Cfg<R::linear_feedback_shift_engine<U, w, k, q, s> > {
	static std::string g() { return "{\"k\":\"lfsr\",\"w\":" + S(w) + ",\"n\":" + S(k) + ",\"q\":" + S(q) + ",\"s\":" + S(s) + "}"; }
	enum { lcg = 0, sseq = 1, it = 1, seed = 1, two = 0, dom = 1 };
};
template<typename U, std::size_t w, std::size_t n, std::size_t m, std::size_t r, U a, std::size_t u, U d, std::size_t s, U b, std::size_t t, U c, std::size_t l, U f>
struct Cfg<R::mersenne_twister_engine<U, w, n, m, r, a, u, d, s, b, t, c, l, f> > {
	static std::string g() {
		return "{\"k\":\"mt\",\"w\":" + S(w) + ",\"n\":" + S(n) + ",\"m\":" + S(m) + ",\"r\":" + S(r) + ",\"a\":" + B(a) + ",\"u\":" + S(u) + ",\"d\":" + B(d) + ",\"s\":" + S(s) + ",\"b\":" + B(b)
			+ ",\"t\":" + S(t) + ",\"c\":" + B(c) + ",\"l\":" + S(l) + ",\"f\":" + B(f) + "}";
	}
	enum { lcg = 0, sseq = 0, it = 0, seed = 0, two = 0, dom = 1 };
};
template<typename A, int s1, typename C, int s2> struct Cfg<R::xor_combine_engine<A, s1, C, s2> > {
	static std::string g() { return "{\"k\":\"xor\",\"w\":" + S(std::numeric_limits<typename A::result_type>::digits) + ",\"w2\":" + S(std::numeric_limits<typename C::result_type>::digits) + ",\"s1\":" + S(s1) + ",\"s2\":" + S(s2) + ",\"b1\":" + Cfg<A>::g() + ",\"b2\":" + Cfg<C>::g() + "}"; }
	enum { lcg = 0, sseq = 1, it = 0, seed = 1, two = 1, dom = Cfg<A>::dom && Cfg<C>::dom };
};
template<typename A, typename C> struct Cfg<R::additive_combine_engine<A, C> > {
	static std::string g() { return "{\"k\":\"add\",\"b1\":" + Cfg<A>::g() + ",\"b2\":" + Cfg<C>::g() + "}"; }
	enum { lcg = 0, sseq = 1, it = 0, seed = 1, two = 1, dom = 0 };
};
template<typename A, std::size_t k> struct Cfg<R::shuffle_order_engine<A, k> > {
	static std::string g() { return "{\"k\":\"shf\",\"n\":" + S(k) + ",\"b1\":" + Cfg<A>::g() + "}"; }
	enum { lcg = 0, sseq = 1, it = Cfg<A>::it, seed = 1, two = 0, dom = 0 };
};
template<> struct Cfg<R::rand48> { static std::string g() { return "{\"k\":\"r48\"}"; } enum { lcg = 0, sseq = 0, it = 0, seed = 0, two = 0, dom = 1 }; };

template<typename E> W text(E const& e) { std::ostringstream o; o << e; std::istringstream i(o.str()); W w; unsigned long long x; while (i >> x) w.push_back(x); return w; }
template<bool B_> struct If {};
typedef If<true> T1; typedef If<false> F0;
static W entropy(int n) { W v; for (int i = 0; i < n; ++i) v.push_back(vf::rnd(0, 5) == 0 ? (vf::rnd(0, 1) ? 0u : 0xffffffffu) : (unsigned)vf::rnd64()); return v; }
template<typename E> typename E::result_type seedval() {
	typedef typename E::result_type T; E d;
	switch (vf::rnd(0, 8)) { case 0: return 0; case 1: return 1; case 2: return T(d.max()); case 3: return T(d.max() + 1); case 4: return std::numeric_limits<T>::max(); case 5: return std::numeric_limits<T>::min(); case 6: return T(vf::rnd(0, 1000)); default: return T(vf::rnd64()); }
}
template<typename E> void seed_seq(E&, int, F0) {}
template<int N, typename E> void seed_seq_n(E& e, int i) {
	W v = entropy(N); std::uint32_t a[N > 0 ? N : 1] = {}; for (int k = 0; k < N; ++k) a[k] = (std::uint32_t)v[k];
	R::seed_array<N> q(a, a + N); R::seed_array<N> const& cq = q; int how = vf::rnd(0, 3);
	if (how == 0) e = E(q); else if (how == 1) e = E(cq); else if (how == 2) e.seed(q); else e.seed(cq);
	Ev ev("seq"); ev("i", i)("v", jw(v)); ev.emit();
}
template<typename E> void seed_seq(E& e, int i, T1) { switch (vf::rnd(0, 3)) { case 0: seed_seq_n<1>(e, i); break; case 1: seed_seq_n<2>(e, i); break; case 2: seed_seq_n<5>(e, i); break; default: seed_seq_n<9>(e, i); } }
template<typename E> void seed_it(E&, int, F0) {}
template<typename E> void seed_it(E& e, int i, T1) {
	W v = entropy(6); std::uint32_t a[6]; for (int k = 0; k < 6; ++k) a[k] = (std::uint32_t)v[k];
	if (vf::rnd(0, 1)) e = E(a + 0, a + 6); else e.seed(a + 0, a + 6);
	Ev ev("it"); ev("i", i)("v", jw(v)); ev.emit();
}
template<typename E> void seed_two(E&, int, F0) {}
template<typename E> void seed_two(E& e, int i, T1) {
	typename E::base1_type::result_type a = seedval<typename E::base1_type>(); typename E::base2_type::result_type b = seedval<typename E::base2_type>(); int how = vf::rnd(0, 2);
	if (how == 0) e = E(a, b); else if (how == 1) e.seed(a, b); else e = E(typename E::base1_type(a), typename E::base2_type(b));
	Ev ev("two"); ev("i", i)("x", vf::bigz(a))("y", vf::bigz(b)); ev.emit();
}
template<typename E> void reseed(E& e, int i, F0) { typename E::result_type x = seedval<E>(); e = E(x); Ev ev("new"); ev("i", i)("x", vf::bigz(x)); ev.emit(); }
template<typename E> void reseed(E& e, int i, T1) {
	if (vf::rnd(0, 4) == 0) { e.seed(); Ev ev("def"); ev("i", i); ev.emit(); return; }
	typename E::result_type x = seedval<E>(); if (vf::rnd(0, 1)) e = E(x); else e.seed(x);
	Ev ev("new"); ev("i", i)("x", vf::bigz(x)); ev.emit();
}
template<typename E> void discard(E*, int, F0) {}
template<typename E> void discard(E* s, int i, T1) {
	unsigned long long n = vf::rnd(0, 3) ? (unsigned long long)vf::rnd(0, 40) : vf::rnd64(); int j = vf::rnd(0, 2);
	if (vf::rnd(0, 1)) { E const& c = s[i]; s[j] = c.discard(n); } else { E t(s[i]); t.discard(n); s[j] = t; }
	Ev ev("disc"); ev("i", i)("j", j)("n", vf::big(n)); ev.emit();
}
template<typename P> u128 val(P const& r) { return r; }
template<typename E> void run(E* s, int i) {
	int j = vf::rnd(0, 2); W w; E const& c = s[i]; E nx(c); int how = vf::rnd(0, 9); int n = vf::rnd(1, 12);
	switch (how) {
	case 0: case 1: { E t(c); for (int k = 0; k < n; ++k) w.push_back(t()); nx = t; break; }
	case 2: { for (int k = 0; k < n; ++k) { E const t(nx); auto r = t(); w.push_back(r.result()); nx = r.next(); } break; }
	case 3: { auto r = c(); for (int k = 1; k < n; ++k) { w.push_back(r.generated_value()); r = r(); } w.push_back(r); nx = r.next_generator(); break; }
	case 4: { auto r = c(); for (int k = 1; k < n; ++k) { w.push_back(*r); ++r; } w.push_back(*r); nx = r.engine(); break; }
	case 5: { auto r = c(); for (int k = 1; k < n; ++k) { w.push_back(*(r++)); } w.push_back(*r.operator->()); nx = r.next(); break; }
	case 6: { E t(c); auto a = R::generate_array<7>(t); for (auto x : a) w.push_back(x); nx = t; break; }
	case 7: { auto pr = R::generate_array<5>(c); for (auto x : pr.first) w.push_back(x); nx = pr.second; break; }
	case 8: { auto it = R::begin(c, n); for (; it != R::end(c); ++it) { w.push_back(*it); nx(); } break; }
	default: { auto rg = R::make_range(c, n); for (auto it = rg.begin(); it != rg.end(); ++it) { w.push_back(*it); nx(); } break; }
	}
	s[j] = nx;
	Ev ev("run"); ev("i", i)("j", j)("n", (int)w.size())("r", jw(w)); ev.emit();
}
template<typename E> void step1(E* s, int i) { W w; w.push_back(s[i]()); Ev ev("run"); ev("i", i)("j", i)("n", 1)("r", jw(w)); ev.emit(); }
template<typename E> void hist(int ops) {
	E s[3]; vf::begin_history();
	{ Ev e("cfg"); E const& c = s[0]; e("g", vf::raw{Cfg<E>::g()})("lo", vf::big(c.min()))("hi", vf::big(c.max())); e.emit(); }
	for (int n = 0; n < ops; ++n) {
		int i = vf::rnd(0, 2), j = vf::rnd(0, 2);
		int op = vf::rnd(0, 15); if (sizeof(typename E::result_type) == 1 && (op == 7 || op == 8)) op = 11; // a char is not written as a number
		switch (op) {
		case 0: reseed(s[i], i, If<(bool)Cfg<E>::seed>()); break;
		case 1: seed_seq(s[i], i, If<(bool)Cfg<E>::sseq>()); break;
		case 2: seed_it(s[i], i, If<(bool)Cfg<E>::it>()); break;
		case 3: seed_two(s[i], i, If<(bool)Cfg<E>::two>()); break;
		case 4: { s[j] = s[i]; Ev e("copy"); e("i", i)("j", j); e.emit(); break; }
		case 5: case 6: { E const& a = s[i]; E const& b = s[j]; Ev e("eq"); e("i", i)("j", j)("eq", a == b)("ne", a != b); e.emit(); break; }
		case 7: { Ev e("save"); e("i", i)("t", jw(text(s[i]))); e.emit(); break; }
		case 8: { std::ostringstream o; o << s[i]; std::istringstream in(o.str() + " 77"); in >> s[j]; int x = 0; in >> x; Ev e("load"); e("i", i)("j", j)("good", x == 77); e.emit(); break; }
		case 9: case 10: discard(s, i, If<(bool)Cfg<E>::lcg>()); break;
		case 11: step1(s, i); break;
		default: run(s, i);
		}
	}
	vf::end_history();
}
template<typename E> void runs(int n, int ops) { for (int i = 0; i < (vf::thorough() ? 12 * n : n); ++i) hist<E>(ops); }
// long runs of the big engines
template<typename E> void longrun(int blocks, int per) {
	E s[3]; vf::begin_history();
	{ Ev e("cfg"); E const& c = s[0]; e("g", vf::raw{Cfg<E>::g()})("lo", vf::big(c.min()))("hi", vf::big(c.max())); e.emit(); }
	if (vf::rnd(0, 2)) reseed(s[0], 0, F0());
	for (int k = 0; k < blocks; ++k) {
		W w; E t(s[0]); for (int x = 0; x < per; ++x) w.push_back(t());
		if (k % 3 == 2) { Ev e("eq"); E u(s[0]); e("i", 0)("j", 1)("eq", s[0] == s[1])("ne", s[0] != s[1]); e.emit(); }
		s[k % 2] = t; { Ev ev("run"); ev("i", 0)("j", k % 2)("n", (int)w.size())("r", jw(w)); ev.emit(); }
		if (k % 4 == 1) { std::ostringstream o; o << s[0]; std::istringstream in(o.str()); in >> s[1]; Ev e("load"); e("i", 0)("j", 1)("good", bool(in)); e.emit();
			Ev f("eq"); f("i", 0)("j", 1)("eq", s[0] == s[1])("ne", s[0] != s[1]); f.emit(); }
		if (k % 2) { W w2; { E const c(s[1]); auto r = c(); w2.push_back(r.result()); s[2] = r.next(); } Ev ev("run"); ev("i", 1)("j", 2)("n", 1)("r", jw(w2)); ev.emit(); }
	}
	vf::end_history();
}
#define LCG(U, a, c, m) R::linear_congruential_engine<U, a, c, m>
typedef std::uint_fast32_t F; typedef std::uint32_t U; typedef std::uint64_t UL; typedef std::uint16_t US; typedef std::uint8_t UC;
typedef R::mersenne_twister_engine<U, 5, 4, 2, 2, 25, 2, 31, 1, 21, 2, 28, 3, 13> mt_a;
typedef R::mersenne_twister_engine<F, 13, 9, 4, 6, 0x1b45, 4, 0x1fff, 3, 0x15a4, 5, 0x1e20, 7, 3173> mt_b;
typedef R::mersenne_twister_engine<UL, 64, 5, 3, 31, 0xb5026f5aa96619e9ULL, 29, 0x5555555555555555ULL, 17, 0x71d67fffeda60000ULL, 37, 0xfff7eee000000000ULL, 43, 6364136223846793005ULL> mt_c;
typedef R::mersenne_twister_engine<U, 32, 17, 8, 19, 0xccab8ee7, 11, 0xffffffff, 7, 0x31b6ab00, 15, 0xffe50000, 17, 1812433253> mt_d;
typedef R::mersenne_twister_engine<U, 32, 7, 5, 31, 0x9908b0df, 11, 0xffffffff, 7, 0x9d2c5680, 15, 0xefc60000, 18, 1812433253> mt_e;
typedef R::linear_feedback_shift_engine<U, 32, 31, 13, 12> lf1; typedef R::linear_feedback_shift_engine<U, 32, 29, 2, 4> lf2;
int main(int ac, char** av) {
	vf::init(ac, av);
#if PART == 1
	runs<R::minstd_rand0>(4, 25); runs<R::minstd_rand>(4, 25);
	runs<LCG(U, 5, 3, 16)>(4, 25); runs<LCG(U, 3, 0, 7)>(3, 25); runs<LCG(U, 6, 1, 25)>(3, 25); runs<LCG(U, 9, 5, 12)>(4, 25); runs<LCG(U, 1, 3, 10)>(4, 25); runs<LCG(U, 0, 3, 10)>(2, 25); runs<LCG(U, 5, 2, 12)>(3, 25); runs<LCG(U, 7, 2, 9)>(3, 25);
	runs<LCG(U, 13, 1, 24)>(3, 25); runs<LCG(F, 1366, 150889, 714025)>(3, 25);
#elif PART == 2
	runs<LCG(U, 1664525, 1013904223, 0)>(4, 25); runs<LCG(UL, 6364136223846793005ULL, 1442695040888963407ULL, 0)>(4, 25); runs<LCG(U, 69069, 0, 0)>(3, 25); runs<LCG(UL, 25214903917ULL, 11, (UL(1) << 48))>(4, 25);
	runs<LCG(US, 5, 3, 16)>(2, 20); runs<LCG(US, 25173, 13849, 0)>(3, 25); runs<LCG(UC, 141, 3, 0)>(3, 25); runs<LCG(UL, 48271, 5, 4294967291ULL)>(3, 25); runs<LCG(UL, 3935559000370003845ULL, 2691343689449507681ULL, 0)>(2, 25);
	runs<LCG(int, 16807, 0, 2147483647)>(4, 25); runs<LCG(int, 48271, 11, 2147483647)>(3, 25); runs<LCG(long long, 40692, 7, 2147483399)>(3, 25); runs<LCG(UC, 5, 1, 0)>(3, 25); runs<LCG(U, 5, 1, 0)>(3, 25);
	runs<R::rand48>(4, 25);
#elif PART == 3
	runs<lf1>(3, 25); runs<lf2>(3, 25); runs<R::linear_feedback_shift_engine<UL, 32, 31, 13, 12> >(3, 25); runs<R::linear_feedback_shift_engine<U, 6, 5, 2, 3> >(3, 25); runs<R::linear_feedback_shift_engine<UL, 64, 63, 31, 32> >(3, 25); runs<R::linear_feedback_shift_engine<UL, 64, 55, 24, 5> >(3, 25);
	runs<R::hellekalek1995>(3, 20); runs<R::inversive_congruential_engine<U, 3, 4, 7> >(3, 25); runs<R::inversive_congruential_engine<int, 102, 36884165, 2147483647> >(3, 20); runs<R::inversive_congruential_engine<U, 5, 0, 11> >(3, 25); runs<R::inversive_congruential_engine<US, 45, 30, 251> >(3, 25);
#elif PART == 4
	runs<R::taus88>(4, 25); runs<R::xor_combine_engine<lf1, 0, lf2, 5> >(2, 25); runs<R::xor_combine_engine<LCG(U, 5, 3, 16), 4, LCG(U, 3, 0, 7), 0> >(3, 25); runs<R::xor_combine_engine<R::minstd_rand0, 0, R::minstd_rand, 0> >(3, 25); runs<R::xor_combine_engine<LCG(UL, 25214903917ULL, 11, (UL(1) << 48)), 3, LCG(U, 48271, 0, 2147483647), 30> >(3, 25);
	runs<R::ecuyer1988>(4, 25); runs<R::additive_combine_engine<LCG(U, 3, 0, 7), LCG(U, 2, 0, 5)> >(3, 25); runs<R::additive_combine_engine<LCG(int, 40014, 0, 2147483563), LCG(int, 40692, 0, 2147483399)> >(3, 25);
#elif PART == 5
	runs<R::kreutzer1986>(2, 20); runs<R::shuffle_order_engine<LCG(U, 5, 3, 16), 4> >(3, 25); runs<R::shuffle_order_engine<LCG(U, 3, 0, 7), 1> >(2, 25); runs<R::shuffle_order_engine<R::minstd_rand, 7> >(3, 25); runs<R::shuffle_order_engine<LCG(int, 16807, 0, 2147483647), 5> >(2, 25);
	runs<R::shuffle_order_engine<LCG(UL, 25214903917ULL, 11, (UL(1) << 48)), 12> >(3, 25); runs<R::shuffle_order_engine<R::ecuyer1988, 6> >(2, 20); runs<R::shuffle_order_engine<R::taus88, 3> >(2, 20);
	runs<R::knuth_b>(2, 12);
#elif PART == 6
	runs<mt_a>(6, 30); runs<mt_b>(6, 30); runs<mt_c>(4, 25); runs<mt_d>(4, 25); runs<mt_e>(4, 25);
#elif PART == 7
	longrun<R::mt19937>(8, 97); longrun<R::mt11213b>(8, 101); longrun<R::mt19937_64>(8, 53);
	if (vf::thorough()) { longrun<R::mt19937>(20, 150); longrun<R::mt11213b>(20, 150); longrun<R::mt19937_64>(20, 150); longrun<R::mt19937>(11, 200); }
#endif
#if PART == 8
	for (int k = 0; k < (vf::thorough() ? 120 : 20); ++k) {
#define SEQ(NV, NR) { W v = entropy(NV); std::uint32_t a[NV + 1] = {}; for (int x = 0; x < NV; ++x) a[x] = (std::uint32_t)v[x]; R::seed_array<NV> q(a, a + NV); \
		W r1, r2, r3, r4; std::uint32_t o[NR + 1]; q.generate(o + 0, o + NR); for (int x = 0; x < NR; ++x) r1.push_back(o[x]); \
		auto t = q.template generate<sprout::array<std::uint32_t, NR> >(); for (auto x : t) r2.push_back(x); \
		std::vector<std::uint64_t> l(NR); q.generate(l.begin(), l.end()); for (auto x : l) r3.push_back(x); \
		std::uint32_t pv[NV + 1] = {}; q.param(pv + 0); for (int x = 0; x < NV; ++x) r4.push_back(pv[x]); W r5; for (auto x : q.param()) r5.push_back(x); \
		Ev e("gen"); e("v", jw(v))("n", NR)("r", jw(r1))("r2", jw(r2))("r3", jw(r3))("pv", jw(r4))("pw", jw(r5))("size", (int)q.size()); e.emit(); }
		SEQ(1, 1) SEQ(1, 2) SEQ(3, 4) SEQ(2, 5) SEQ(5, 3) SEQ(9, 7) SEQ(4, 10) SEQ(12, 6) SEQ(1, 8)
		if (k % 5 == 0) { SEQ(3, 40) SEQ(50, 39) SEQ(2, 70) }
	}
	{ auto q = R::make_seed_array(1u, 2u, 3u); W v{1, 2, 3}, r; std::uint32_t o[6]; q.generate(o + 0, o + 6); for (auto x : o) r.push_back(x); Ev e("gen"); e("v", jw(v))("n", 6)("r", jw(r))("r2", jw(r))("r3", jw(r))("pv", jw(v))("pw", jw(v))("size", (int)q.size()); e.emit(); }
	if (vf::thorough()) { W v = entropy(3); std::uint32_t a[3] = {(std::uint32_t)v[0], (std::uint32_t)v[1], (std::uint32_t)v[2]}; R::seed_array<3> q(a, a + 3); std::vector<std::uint32_t> o(640); q.generate(o.begin(), o.end()); W r(o.begin(), o.end()); Ev e("gen"); e("v", jw(v))("n", 640)("r", jw(r))("r2", jw(r))("r3", jw(r))("pv", jw(v))("pw", jw(v))("size", 3); e.emit(); }
#endif
	return vf::done();
}
